// C35: the keypoint channels of a frame.   C36: frame sets and feature tracks.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <limits>
#include "camera_ref.h"
#include <aslam/cameras/ncamera.h>
#include <aslam/common/time.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/keypoint-identifier.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>

namespace {
typedef VisualFrame::DescriptorsT Desc;
typedef Eigen::MatrixXd MX;
typedef Eigen::VectorXd VD;
typedef Eigen::VectorXi VI;
enum { kKp, kUnc, kOri, kScore, kScale, kPos, kOff, kTrack, kNum };
const char* kChan[] = {"measurements", "uncertainties", "orientations", "scores", "scales", "positions", "offsets", "track ids"};

// A frame as plain data: every channel is a matrix with one column per keypoint.
struct FrameModel {
  bool has[kNum] = {};
  MX data[kNum];
  bool hasDesc = false;
  std::vector<Desc> desc;
  std::vector<int> types;
  bool hasImage = false;
  cv::Mat image;
  std::map<std::string, VD> own;
  int64_t time = 0;
  FrameId id;
  Camera::ConstPtr cam, raw;
  bool valid = true;
  int kps() const { return has[kKp] ? static_cast<int>(data[kKp].cols()) : 0; }
  int descs() const { int n = 0; for (auto& d : desc) n += static_cast<int>(d.cols()); return n; }
  bool aligned() const {
    const int n = kps();
    for (int c = 0; c < kNum; ++c) if (has[c] && data[c].cols() != n) return false;
    return !hasDesc || descs() == n;
  }
  FrameModel copy() const { FrameModel m = *this; m.image = image.clone(); return m; }
};
int rowsOf(int c) { return c == kKp ? 2 : c == kPos ? 3 : 1; }
bool isInt(int c) { return c == kOff || c == kTrack; }
MX someData(Rng& r, int c, int n) {
  MX m(rowsOf(c), n);
  for (int i = 0; i < m.size(); ++i) m.data()[i] = isInt(c) ? static_cast<double>(static_cast<int>(r.below(40)) - 12) : r.chance(0.1) ? 0.0 : r.uni(-900, 900);
  return m;
}
Desc someDesc(Rng& r, int bytes, int n) {
  Desc d(bytes, n);
  for (int i = 0; i < d.size(); ++i) d.data()[i] = static_cast<unsigned char>(r.below(256));
  return d;
}
VD row(const MX& m) { return m.row(0).transpose(); }
VI irow(const MX& m) { VI v(m.cols()); for (int i = 0; i < v.size(); ++i) v[i] = static_cast<int>(m(0, i)); return v; }

void setOne(VisualFrame& f, int c, const MX& m) {
  switch (c) {
    case kKp: f.setKeypointMeasurements(m); break;
    case kUnc: f.setKeypointMeasurementUncertainties(row(m)); break;
    case kOri: f.setKeypointOrientations(row(m)); break;
    case kScore: f.setKeypointScores(row(m)); break;
    case kScale: f.setKeypointScales(row(m)); break;
    case kPos: f.setKeypoint3DPositions(m); break;
    case kOff: f.setKeypointTimeOffsets(irow(m)); break;
    default: f.setTrackIds(irow(m));
  }
}
// Swaps the channel with m and puts what came out into m.
void swapOne(VisualFrame& f, int c, MX* m) {
  Eigen::Matrix2Xd k; Eigen::Matrix3Xd p; VD d; VI i;
  if (c == kKp) k = *m; else if (c == kPos) p = *m; else if (isInt(c)) i = irow(*m); else d = row(*m);
  switch (c) {
    case kKp: f.swapKeypointMeasurements(&k); break;
    case kUnc: f.swapKeypointMeasurementUncertainties(&d); break;
    case kOri: f.swapKeypointOrientations(&d); break;
    case kScore: f.swapKeypointScores(&d); break;
    case kScale: f.swapKeypointScales(&d); break;
    case kPos: f.swapKeypoint3DPositions(&p); break;
    case kOff: f.swapKeypointTimeOffsets(&i); break;
    default: f.swapTrackIds(&i);
  }
  if (c == kKp) *m = k; else if (c == kPos) *m = p; else if (isInt(c)) *m = i.cast<double>().transpose(); else *m = d.transpose();
}
void extendOne(VisualFrame& f, int c, const MX& m, bool dflt, double v) {
  switch (c) {
    case kKp: f.extendKeypointMeasurements(m); break;
    case kUnc: if (dflt) f.extendKeypointMeasurementUncertainties(row(m)); else f.extendKeypointMeasurementUncertainties(row(m), v); break;
    case kOri: if (dflt) f.extendKeypointOrientations(row(m)); else f.extendKeypointOrientations(row(m), v); break;
    case kScore: if (dflt) f.extendKeypointScores(row(m)); else f.extendKeypointScores(row(m), v); break;
    case kScale: if (dflt) f.extendKeypointScales(row(m)); else f.extendKeypointScales(row(m), v); break;
    case kPos: if (dflt) f.extendKeypoint3DPositions(m); else f.extendKeypoint3DPositions(m, v); break;
    case kOff: if (dflt) f.extendKeypointTimeOffsets(irow(m)); else f.extendKeypointTimeOffsets(irow(m), static_cast<int>(v)); break;
    default: if (dflt) f.extendTrackIds(irow(m)); else f.extendTrackIds(irow(m), static_cast<int>(v));
  }
}
bool hasOne(const VisualFrame& f, int c) {
  switch (c) {
    case kKp: return f.hasKeypointMeasurements();
    case kUnc: return f.hasKeypointMeasurementUncertainties();
    case kOri: return f.hasKeypointOrientations();
    case kScore: return f.hasKeypointScores();
    case kScale: return f.hasKeypointScales();
    case kPos: return f.hasKeypoint3DPositions();
    case kOff: return f.hasKeypointTimeOffsets();
    default: return f.hasTrackIds();
  }
}
MX getOne(const VisualFrame& f, int c) {
  switch (c) {
    case kKp: return f.getKeypointMeasurements();
    case kUnc: return f.getKeypointMeasurementUncertainties().transpose();
    case kOri: return f.getKeypointOrientations().transpose();
    case kScore: return f.getKeypointScores().transpose();
    case kScale: return f.getKeypointScales().transpose();
    case kPos: return f.getKeypoint3DPositions();
    case kOff: return f.getKeypointTimeOffsets().cast<double>().transpose();
    default: return f.getTrackIds().cast<double>().transpose();
  }
}
MX getMutable(VisualFrame& f, int c) {
  switch (c) {
    case kKp: return *f.getKeypointMeasurementsMutable();
    case kUnc: return f.getKeypointMeasurementUncertaintiesMutable()->transpose();
    case kOri: return f.getKeypointOrientationsMutable()->transpose();
    case kScore: return f.getKeypointScoresMutable()->transpose();
    case kScale: return f.getKeypointScalesMutable()->transpose();
    case kPos: return *f.getKeypoint3DPositionsMutable();
    case kOff: return f.getKeypointTimeOffsetsMutable()->cast<double>().transpose();
    default: return f.getTrackIdsMutable()->cast<double>().transpose();
  }
}
void poke(VisualFrame& f, int c, int row, int col, double v) {
  switch (c) {
    case kKp: (*f.getKeypointMeasurementsMutable())(row, col) = v; break;
    case kUnc: (*f.getKeypointMeasurementUncertaintiesMutable())(col) = v; break;
    case kOri: (*f.getKeypointOrientationsMutable())(col) = v; break;
    case kScore: (*f.getKeypointScoresMutable())(col) = v; break;
    case kScale: (*f.getKeypointScalesMutable())(col) = v; break;
    case kPos: (*f.getKeypoint3DPositionsMutable())(row, col) = v; break;
    case kOff: (*f.getKeypointTimeOffsetsMutable())(col) = static_cast<int>(v); break;
    default: (*f.getTrackIdsMutable())(col) = static_cast<int>(v);
  }
}
MX at(const VisualFrame& f, int c, size_t i) {
  MX m(rowsOf(c), 1);
  switch (c) {
    case kKp: m = f.getKeypointMeasurement(i); break;
    case kUnc: m(0) = f.getKeypointMeasurementUncertainty(i); break;
    case kOri: m(0) = f.getKeypointOrientation(i); break;
    case kScore: m(0) = f.getKeypointScore(i); break;
    case kScale: m(0) = f.getKeypointScale(i); break;
    case kPos: m = f.getKeypoint3DPosition(i); break;
    case kOff: m(0) = f.getKeypointTimeOffset(i); break;
    default: m(0) = f.getTrackId(i);
  }
  return m;
}
MX atOfType(const VisualFrame& f, int c, size_t i, int t) {
  MX m(rowsOf(c), 1);
  switch (c) {
    case kKp: m = f.getKeypointMeasurementOfType(i, t); break;
    case kUnc: m(0) = f.getKeypointMeasurementUncertaintyOfType(i, t); break;
    case kOri: m(0) = f.getKeypointOrientationOfType(i, t); break;
    case kScore: m(0) = f.getKeypointScoreOfType(i, t); break;
    case kScale: m(0) = f.getKeypointScaleOfType(i, t); break;
    case kPos: m = f.getKeypoint3DPositionOfType(i, t); break;
    case kOff: m(0) = f.getKeypointTimeOffsetOfType(i, t); break;
    default: m(0) = f.getTrackIdOfType(i, t);
  }
  return m;
}
MX ofType(const VisualFrame& f, int c, int t) {
  switch (c) {
    case kKp: return f.getKeypointMeasurementsOfType(t);
    case kUnc: return f.getKeypointMeasurementUncertaintiesOfType(t).transpose();
    case kOri: return f.getKeypointOrientationsOfType(t).transpose();
    case kScore: return f.getKeypointScoresOfType(t).transpose();
    case kScale: return f.getKeypointScalesOfType(t).transpose();
    case kPos: return f.getKeypoint3DPositionsOfType(t);
    case kOff: return f.getKeypointTimeOffsetsOfType(t).cast<double>().transpose();
    default: return f.getTrackIdsOfType(t).cast<double>().transpose();
  }
}
bool same(const MX& a, const MX& b) { return a.rows() == b.rows() && a.cols() == b.cols() && a == b; }
bool same(const Desc& a, const Desc& b) { return a.cols() == b.cols() && (a.cols() == 0 || (a.rows() == b.rows() && a == b)); }
bool same(const cv::Mat& a, const cv::Mat& b) {
  if (a.empty() || b.empty()) return a.empty() == b.empty();
  return a.size() == b.size() && a.type() == b.type() && cv::norm(a, b, cv::NORM_INF) == 0;
}

// Everything the frame says against the model.
#define E(cond, key, what) (ok = VF_EXPECT(cond, key, "%s: %s", when.c_str(), std::string(what).c_str()) && ok)
bool check(const VisualFrame& f, const FrameModel& m, const std::string& when) {
  bool ok = true;
  const int n = m.kps();
  E(static_cast<int>(f.getNumKeypointMeasurements()) == n, "count", vf::fmt("%zu keypoints instead of %d", f.getNumKeypointMeasurements(), n));
  E(f.getTimestampNanoseconds() == m.time && f.getId() == m.id && f.isValid() == m.valid, "header", "time, id or validity changed");
  E(f.getCameraGeometry() == m.cam && f.getRawCameraGeometry() == m.raw, "cameras", "another camera is returned");
  for (int c = 0; c < kNum; ++c) {
    E(hasOne(f, c) == m.has[c], "has", vf::fmt("%s %s", kChan[c], m.has[c] ? "missing" : "appeared"));
    if (!m.has[c] || !hasOne(f, c)) continue;
    const MX g = getOne(f, c);
    E(same(g, m.data[c]), std::string("data:") + kChan[c], vf::fmt("%s differ (%d entries, %d stored)", kChan[c], static_cast<int>(g.cols()), static_cast<int>(m.data[c].cols())));
    if (!same(g, m.data[c])) continue;
    for (int i = 0; i < g.cols(); ++i) E(same(at(f, c, i), m.data[c].col(i)), std::string("entry:") + kChan[c], vf::fmt("%s of keypoint %d differ", kChan[c], i));
  }
  E(f.hasDescriptors() == m.hasDesc, "has", "descriptors missing or appeared");
  E(static_cast<int>(f.getNumDescriptors()) == m.descs(), "descriptor-count", vf::fmt("%zu descriptors instead of %d", f.getNumDescriptors(), m.descs()));
  if (m.hasDesc && f.hasDescriptors()) {
    E(f.getDescriptorTypes().size() == static_cast<int>(m.types.size()), "types", "another number of descriptor blocks");
    int i = 0;
    for (size_t b = 0; b < m.desc.size() && ok; ++b) {
      E(same(f.getDescriptors(b), m.desc[b]) && f.getDescriptorTypes()[b] == m.types[b] && f.getDescriptorBlockType(b) == m.types[b], "block", vf::fmt("descriptor block %zu differs", b));
      E(f.getDescriptorSizeBytes(b) == static_cast<size_t>(m.desc[b].rows()), "descriptor-size", vf::fmt("block %zu has descriptors of %zu bytes", b, f.getDescriptorSizeBytes(b)));
      for (int j = 0; j < m.desc[b].cols() && ok; ++j, ++i) {
        E(f.getDescriptorType(i) == m.types[b], "descriptor-type", vf::fmt("descriptor %d has type %d instead of %d", i, f.getDescriptorType(i), m.types[b]));
        if (m.desc[b].rows()) E(std::memcmp(f.getDescriptor(i), m.desc[b].col(j).data(), m.desc[b].rows()) == 0, "descriptor", vf::fmt("descriptor %d differs", i));
      }
    }
    // By type: the first block of that type.
    for (int t = -1; t < 5; ++t) {
      const size_t b = std::find(m.types.begin(), m.types.end(), t) - m.types.begin();
      E(f.hasDescriptorType(t) == (b < m.types.size()), "has-type", vf::fmt("type %d", t));
      if (b == m.types.size()) { E(f.getNumKeypointMeasurementsOfType(t) == 0, "count-of-type", vf::fmt("keypoints of a missing type %d", t)); continue; }
      int start = 0;
      for (size_t k = 0; k < b; ++k) start += static_cast<int>(m.desc[k].cols());
      const int size = static_cast<int>(m.desc[b].cols());
      size_t s = 99, z = 99;
      f.getDescriptorBlockTypeStartAndSize(t, &s, &z);
      E(static_cast<int>(s) == start && static_cast<int>(z) == size && f.getDescriptorTypeBlock(t) == b, "range-of-type", vf::fmt("type %d is at %zu+%zu instead of %d+%d", t, s, z, start, size));
      E(static_cast<int>(f.getNumKeypointMeasurementsOfType(t)) == (m.has[kKp] ? size : 0), "count-of-type", vf::fmt("%zu keypoints of type %d instead of %d", f.getNumKeypointMeasurementsOfType(t), t, size));
      E(same(f.getDescriptorsOfType(t), m.desc[b]) && f.getDescriptorTypeSizeBytes(t) == static_cast<size_t>(m.desc[b].rows()), "descriptors-of-type", vf::fmt("descriptors of type %d differ", t));
      if (!ok) return false;
      for (int c = 0; c < kNum; ++c) {
        if (!m.has[c] || m.data[c].cols() < start + size) continue;
        const MX want = m.data[c].middleCols(start, size);
        E(same(ofType(f, c, t), want), std::string("of-type:") + kChan[c], vf::fmt("%s of type %d differ", kChan[c], t));
        for (int j = 0; j < size; ++j) E(same(atOfType(f, c, j, t), want.col(j)), std::string("of-type:") + kChan[c], vf::fmt("%s %d of type %d differ", kChan[c], j, t));
      }
    }
  } else if (!m.hasDesc) {
    E(!f.hasDescriptorType(0), "has-type", "type without descriptors");
    E(f.getNumKeypointMeasurementsOfType(0) == 0, "count-of-type", "keypoints of a type without descriptors");
  }
  E(f.hasRawImage() == m.hasImage, "image", "the image is missing or appeared");
  if (m.hasImage && f.hasRawImage()) E(same(f.getRawImage(), m.image), "image", "another image");
  for (auto& kv : m.own) {
    E(f.hasChannel(kv.first), "own", "a channel of the user is missing");
    if (f.hasChannel(kv.first)) E(f.getChannelData<VD>(kv.first) == kv.second, "own", "a channel of the user differs");
  }
  return ok;
}
// The same frame, put together from scratch with plain setters.
VisualFrame::Ptr build(const FrameModel& m) {
  VisualFrame::Ptr f(new VisualFrame);
  f->setTimestampNanoseconds(m.time);
  f->setId(m.id);
  f->setValid(m.valid);
  f->setCameraGeometry(m.cam);
  f->setRawCameraGeometry(m.raw);
  for (int c = kNum - 1; c >= 0; --c) if (m.has[c]) setOne(*f, c, m.data[c]);
  if (m.hasDesc) for (size_t b = 0; b < m.desc.size(); ++b) f->extendDescriptors(m.desc[b], m.types[b]);
  if (m.hasImage) f->setRawImage(m.image.clone());
  for (auto& kv : m.own) f->setChannelData(kv.first, kv.second);
  return f;
}

void history(Rng& r, uint64_t) {
  VisualFrame::Ptr f(new VisualFrame);
  FrameModel m;
  m.time = f->getTimestampNanoseconds();
  m.id = f->getId();
  std::string log;
  uint64_t h = 3;
  int nontrivial = 0, blocks = 0;
  if (!VF_EXPECT(!aslam::time::isValidTime(m.time) && f->isValid(), "fresh", "a fresh frame has a time or is invalid")) return;
  if (r.chance(0.1)) {
    Cam c = someCam(r, kPin);
    const int64_t t = 5 + static_cast<int64_t>(r.below(100000));
    f = VisualFrame::createEmptyTestVisualFrame(c.cam, t);
    m.cam = c.cam; m.time = t; m.id = f->getId();
    m.has[kKp] = m.has[kUnc] = m.hasDesc = true;
    m.data[kKp].resize(2, 0); m.data[kUnc].resize(1, 0);
    m.desc.push_back(Desc(48, 0)); m.types.push_back(0);
    VF_EXPECT(m.id.isValid(), "made", "the made frame has no id");
    if (!check(*f, m, "a made frame")) return;
  }
  const bool vast = r.chance(0.02);   // hundreds of keypoints
  const int steps = vast ? 3 + static_cast<int>(r.below(5)) : 4 + static_cast<int>(r.below(14));
  for (int s = 0; s < steps; ++s) {
    std::string op;
    const int k = static_cast<int>(r.below(14));
    bool fine = true;
    if (k == 0 || s == 0) {                       // A new set of keypoints.
      const int n = r.chance(0.15) ? 0 : vast ? 200 + static_cast<int>(r.below(400)) : static_cast<int>(r.below(9));
      const bool swaps = r.chance(0.5);
      op = vf::fmt("%s %d", swaps ? "swap in" : "set", n);
      const bool withDesc = r.chance(0.8);
      fine = vf::mustReturn("set", op.c_str(), [&] {
        for (int c = 0; c < kNum; ++c) {
          if (c != kKp && !m.has[c] && r.chance(0.4)) continue;
          MX d = someData(r, c, n), out = d;
          if (swaps) {
            swapOne(*f, c, &out);
            VF_EXPECT(m.has[c] ? same(out, m.data[c]) : out.cols() == 0, "swapped-out", "swapping %s gives something else back", kChan[c]);
          } else setOne(*f, c, d);
          m.has[c] = true; m.data[c] = d;
        }
        if (withDesc || m.hasDesc) {
          // One block: drop others by clearing first.
          if (m.desc.size() > 1) {
            f->clearKeypointChannels();
            for (int c = 0; c < kNum; ++c) if (m.has[c] || (c != kPos && c != kOff)) { m.has[c] = true; m.data[c] = someData(r, c, n); setOne(*f, c, m.data[c]); }
            m.desc.assign(1, Desc()); m.types.assign(1, 0);
          }
          const int bytes = r.chance(0.5) ? 48 : 1 + static_cast<int>(r.below(9)), t = static_cast<int>(r.below(3));
          Desc d = someDesc(r, bytes, n);
          const int how = static_cast<int>(r.below(3));
          if (how == 0) f->setDescriptors(d, 0, t);
          else if (how == 1) { Eigen::Map<const Desc> map(d.data(), d.rows(), d.cols()); f->setDescriptors(map, 0, t); }
          else {
            Desc x = d;
            const int old = f->swapDescriptors(&x, 0, t);
            if (!m.desc.empty()) VF_EXPECT(old == m.types[0] && same(x, m.desc[0]), "swapped-out", "swapping descriptors gives something else back (type %d)", old);
          }
          m.hasDesc = true;
          if (m.desc.empty()) { m.desc.push_back(d); m.types.push_back(t); } else { m.desc[0] = d; m.types[0] = t; }
        }
      });
    } else if (k <= 4 && (m.hasDesc || m.kps() == 0)) {   // A block of another type.
      const int n = r.chance(0.1) ? 0 : vast ? 200 + static_cast<int>(r.below(200)) : static_cast<int>(r.below(6)), bytes = 1 + static_cast<int>(r.below(9)), t = static_cast<int>(r.below(5));
      op = vf::fmt("extend by %d of type %d", n, t);
      if (m.descs() != m.kps()) continue;
      fine = vf::mustReturn("extend", op.c_str(), [&] {
        MX d = someData(r, kKp, n);
        f->extendKeypointMeasurements(d);
        MX j(2, m.kps() + n);
        if (m.kps()) j << m.data[kKp], d; else j = d;
        m.has[kKp] = true; m.data[kKp] = j;
        for (int c = 1; c < kNum; ++c) {
          if (r.chance(m.has[c] ? 0.15 : 0.6)) continue;
          MX e = someData(r, c, n);
          const bool dflt = r.chance(0.4);
          const double v = dflt ? (isInt(c) ? -1 : 0) : isInt(c) ? static_cast<double>(r.below(9)) : r.uni(-5, 5);
          extendOne(*f, c, e, dflt, v);
          MX all = MX::Constant(rowsOf(c), m.kps(), v);
          const int had = m.has[c] ? static_cast<int>(m.data[c].cols()) : 0;
          if (had) all.leftCols(had) = m.data[c];
          if (n) all.rightCols(n) = e;
          m.has[c] = true; m.data[c] = all;
        }
        Desc x = someDesc(r, bytes, n);
        if (r.chance(0.5)) f->extendDescriptors(x, t);
        else { Eigen::Map<const Desc> map(x.data(), x.rows(), x.cols()); f->extendDescriptors(map, t); }
        m.hasDesc = true; m.desc.push_back(x); m.types.push_back(t);
      });
      blocks = std::max(blocks, static_cast<int>(m.desc.size()));
    } else if (k == 5 && m.desc.size() > 1) {             // Replace one block.
      const size_t b = r.below(m.desc.size());
      const int t = static_cast<int>(r.below(5)), bytes = 1 + static_cast<int>(r.below(9));
      op = vf::fmt("replace block %zu", b);
      Desc d = someDesc(r, bytes, static_cast<int>(m.desc[b].cols()));
      fine = vf::mustReturn("replace", op.c_str(), [&] {
        if (r.chance(0.5)) f->setDescriptors(d, b, t);
        else {
          Desc x = d;
          const int old = f->swapDescriptors(&x, b, t);
          VF_EXPECT(old == m.types[b] && same(x, m.desc[b]), "swapped-out", "swapping block %zu gives something else back", b);
        }
      });
      m.desc[b] = d; m.types[b] = t;
    } else if (k <= 7 && m.has[kTrack] && m.aligned()) {   // Discard what is not tracked.
      op = "discard untracked";
      std::vector<size_t> want, got(3, 7);
      std::vector<int> keep;
      for (int i = 0; i < m.kps(); ++i) if (m.data[kTrack](0, i) < 0) want.push_back(i); else keep.push_back(i);
      fine = vf::mustReturn("discard", op.c_str(), [&] { f->discardUntrackedObservations(&got); });
      VF_EXPECT(got == want, "discarded", "%zu indices reported instead of %zu", got.size(), want.size());
      for (int c = 0; c < kNum; ++c) if (m.has[c]) {
        MX d(rowsOf(c), keep.size());
        for (size_t i = 0; i < keep.size(); ++i) d.col(i) = m.data[c].col(keep[i]);
        m.data[c] = d;
      }
      int start = 0;
      for (Desc& d : m.desc) {
        std::vector<int> in;
        for (int i : keep) if (i >= start && i < start + d.cols()) in.push_back(i - start);
        Desc x(d.rows(), in.size());
        for (size_t i = 0; i < in.size(); ++i) x.col(i) = d.col(in[i]);
        start += static_cast<int>(d.cols());
        d = x;
      }
      if (!want.empty() && !keep.empty()) ++nontrivial;
      if (!want.empty() && m.desc.size() > 1) vf::count("discarded from several blocks");
    } else if (k == 8) {                                   // Change single entries.
      op = "poke";
      fine = vf::mustReturn("poke", "changing entries", [&] {
        for (int c = 0; c < kNum; ++c) if (m.has[c] && m.data[c].cols() && r.chance(0.5)) {
          const int i = static_cast<int>(r.below(m.data[c].cols())), j = static_cast<int>(r.below(m.data[c].rows()));
          const double v = static_cast<double>(r.below(30)) - 5;
          VF_EXPECT(same(getMutable(*f, c), m.data[c]), "mutable", "mutable %s differ", kChan[c]);
          poke(*f, c, j, i, v);
          m.data[c](j, i) = v;
        }
        for (size_t b = 0; b < m.desc.size(); ++b) if (m.desc[b].size() && r.chance(0.5)) {
          const size_t i = r.below(m.desc[b].size());
          f->getDescriptorsMutable(b)->data()[i] ^= 0x5a;
          m.desc[b].data()[i] ^= 0x5a;
        }
        if (m.has[kTrack] && m.aligned() && !m.types.empty()) {
          const int t = m.types[r.below(m.types.size())];
          const size_t b = std::find(m.types.begin(), m.types.end(), t) - m.types.begin();
          int start = 0;
          for (size_t q = 0; q < b; ++q) start += static_cast<int>(m.desc[q].cols());
          auto block = f->getTrackIdsOfTypeMutable(t);
          if (VF_EXPECT(block.size() == m.desc[b].cols(), "of-type-mutable", "%d track ids of type %d", static_cast<int>(block.size()), t) && block.size()) {
            const int i = static_cast<int>(r.below(block.size()));
            block[i] = 77;
            m.data[kTrack](0, start + i) = 77;
          }
        }
      });
    } else if (k == 9) {                                   // Header and image.
      op = "header";
      m.time = static_cast<int64_t>(r.next() >> 1);
      generateId(&m.id);
      m.valid = r.chance(0.6);
      f->setTimestampNanoseconds(m.time);
      f->setId(m.id);
      if (m.valid && r.chance(0.5)) f->validate(); else if (!m.valid && r.chance(0.5)) f->invalidate(); else f->setValid(m.valid);
      if (r.chance(0.4)) { m.cam = someCam(r).cam; m.raw = r.chance(0.5) ? someCam(r).cam : m.cam; f->setCameraGeometry(m.cam); f->setRawCameraGeometry(m.raw); }
      if (r.chance(0.6)) {
        m.image = cv::Mat(1 + static_cast<int>(r.below(7)), 1 + static_cast<int>(r.below(7)), r.chance(0.8) ? CV_8UC1 : CV_8UC3);
        for (size_t i = 0; i < m.image.total() * m.image.elemSize(); ++i) m.image.data[i] = static_cast<uchar>(r.below(256));
        m.hasImage = true;
        f->setRawImage(m.image.clone());
      } else { if (m.hasImage) f->releaseRawImage(); m.hasImage = false; m.image = cv::Mat(); }
      const std::string name = vf::fmt("own%d", static_cast<int>(r.below(3)));
      VD v = VD::Random(r.below(5));
      if (r.chance(0.5)) f->setChannelData(name, v);
      else {
        VD x = v;
        f->swapChannelData(name, &x);
        if (m.own.count(name)) VF_EXPECT(x == m.own[name], "swapped-out", "swapping a channel of the user gives something else back");
      }
      m.own[name] = v;
    } else if (k == 10) {
      op = "clear";
      fine = vf::mustReturn("clear", "clearing", [&] { f->clearKeypointChannels(); });
      for (int c = 0; c < kNum; ++c) { if (c != kPos && c != kOff) m.has[c] = true; if (m.has[c]) m.data[c].resize(rowsOf(c), 0); }
      m.hasDesc = true; m.desc.assign(1, Desc()); m.types.assign(1, 0);
    } else if (k == 11 && m.hasDesc) {                     // Through text.
      op = "serialize descriptors";
      std::string text;
      fine = vf::mustReturn("serialize", "serializing descriptors", [&] {
        f->serializeDescriptorsToString(&text);
        VisualFrame g;
        g.deserializeDescriptorsFromString(text);
        VI types(m.types.size());
        for (size_t i = 0; i < m.types.size(); ++i) types[i] = m.types[i];
        g.setDescriptorTypes(types);
        VF_EXPECT(g.getNumDescriptors() == f->getNumDescriptors(), "serialize", "another number of descriptors after a round trip");
        for (size_t b = 0; b < m.desc.size(); ++b) VF_EXPECT(same(g.getDescriptors(b), m.desc[b]) && g.getDescriptorBlockType(b) == m.types[b], "serialize", "block %zu differs after a round trip", b);
        f->deserializeDescriptorsFromString(text);
      });
    } else {                                               // Carry on with a copy.
      op = "copy";
      VisualFrame::Ptr g;
      fine = vf::mustReturn("copy", "copying", [&] {
        if (r.chance(0.5)) g.reset(new VisualFrame(*f));
        else { g.reset(new VisualFrame); if (r.chance(0.5)) { setOne(*g, kUnc, someData(r, kUnc, 4)); g->setRawImage(cv::Mat::ones(2, 2, CV_8UC1)); } *g = *f; }
      });
      if (!fine) return;
      VF_EXPECT(*g == *f && *f == *g && g->compareWithoutCameraGeometry(*f), "copy-equal", "a copy compares different");
      if (!check(*g, m, "the copy")) return;
      // What is done to the copy does not touch the original.
      FrameModel old = m.copy();
      VisualFrame::Ptr was = f;
      for (int c = 0; c < kNum; ++c) if (m.has[c] && m.data[c].cols()) { poke(*g, c, 0, 0, 3.0); m.data[c](0, 0) = 3.0; }
      if (m.desc.size() && m.desc[0].size()) { g->getDescriptorsMutable(0)->data()[0] ^= 1; m.desc[0].data()[0] ^= 1; }
      if (m.hasImage) { m.image = m.image.clone(); m.image.data[0] ^= 1; g->setRawImage(m.image.clone()); }   // Images are shared by design.
      if (!check(*was, old, "the original after its copy was changed")) return;
      f = g;
      ++nontrivial;
    }
    if (!fine) return;
    log += (log.empty() ? "" : "; ") + op;
    h = vf::hashStr(op) ^ vf::mix(h);
    vf::detail(log);
    if (op.empty()) continue;
    if (!check(*f, m, "after " + op)) return;
  }
  // A frame built afresh is equal; one that differs anywhere is not.
  VisualFrame::Ptr g = build(m);
  if (m.hasDesc || !f->hasDescriptors()) VF_EXPECT(*g == *f && *f == *g && f->compareWithoutCameraGeometry(*g), "equal", "a frame with the same data compares different");
  auto differs = [&](const std::string& what, bool header, const std::function<void(VisualFrame&)>& change) {
    VisualFrame x(*f);
    change(x);
    VF_EXPECT(!(x == *f) && !(*f == x), "different:" + what, "frames that differ in %s compare equal", what.c_str());
    if (!header) VF_EXPECT(!x.compareWithoutCameraGeometry(*f), "different:" + what, "frames that differ in %s compare equal without cameras", what.c_str());
  };
  differs("time", false, [&](VisualFrame& x) { x.setTimestampNanoseconds(m.time ^ 1); });
  differs("validity", false, [&](VisualFrame& x) { x.setValid(!m.valid); });
  differs("camera", true, [&](VisualFrame& x) { if (m.cam) x.setCameraGeometry(nullptr); else x.setCameraGeometry(PinholeCamera::createTestCamera()); });
  for (int c = 0; c < kNum; ++c) if (m.has[c] && m.data[c].cols()) {
    const int i = static_cast<int>(r.below(m.data[c].cols())), j = static_cast<int>(r.below(rowsOf(c)));
    differs(kChan[c], false, [&](VisualFrame& x) { poke(x, c, j, i, m.data[c](j, i) + 1); });
  } else if (!m.has[c]) differs(kChan[c], false, [&](VisualFrame& x) { setOne(x, c, MX(rowsOf(c), 0)); });
  for (size_t b = 0; b < m.desc.size(); ++b) if (m.desc[b].size()) differs("descriptors", false, [&](VisualFrame& x) { x.getDescriptorsMutable(b)->data()[r.below(m.desc[b].size())] ^= 8; });
  if (m.hasImage) differs("image", false, [&](VisualFrame& x) { cv::Mat i = x.getRawImageMutable()->clone(); i.data[0] ^= 1; *x.getRawImageMutable() = i; });
  std::ostringstream out;
  vf::mustReturn("print", "printing", [&] { out << *f; });
  vf::maxOf("descriptor blocks", blocks);
  vf::evaluated(h, nontrivial > 0, log);
}

// Indices that do not exist are refused.
void refusals(Rng& r, uint64_t) {
  VisualFrame f;
  const int n = static_cast<int>(r.below(5)), m = 1 + static_cast<int>(r.below(3));
  const bool two = r.chance(0.5);
  for (int c = 0; c < kNum; ++c) setOne(f, c, someData(r, c, n));
  f.setDescriptors(someDesc(r, 6, n), 0, 1);
  int total = n;
  if (two) {
    f.extendKeypointMeasurements(someData(r, kKp, m));
    for (int c = 1; c < kNum; ++c) extendOne(f, c, someData(r, c, m), true, 0);
    f.extendDescriptors(someDesc(r, 3, m), 2);
    total += m;
  }
  const size_t bad[] = {static_cast<size_t>(total), static_cast<size_t>(total) + 1, size_t(1) << 31, (size_t(1) << 31) + 1, size_t(1) << 32, (size_t(1) << 32) - 1, ~size_t(0), ~size_t(0) - 3};
  const int c = static_cast<int>(r.below(kNum + 6));
  const size_t i = bad[r.below(8)];
  volatile double sink = 0;
  std::string what;
  vf::Outcome o;
  if (c < kNum) {
    what = kChan[c];
    if (r.chance(0.3)) { const size_t k = (two ? m : n) + (r.chance(0.5) ? r.below(3) : size_t(1) << 33); what += " of type"; vf::detail(vf::fmt("%s %zu of %d", what.c_str(), k, two ? m : n)); o = vf::guarded([&] { sink = atOfType(f, c, k, two ? 2 : 1)(0); }); }
    else { vf::detail(vf::fmt("%s %zu of %d", what.c_str(), i, total)); o = vf::guarded([&] { sink = at(f, c, i)(0); }); }
  } else if (c == kNum) { what = "descriptor"; o = vf::guarded([&] { sink = *f.getDescriptor(i); }); }
  else if (c == kNum + 1) { what = "descriptor type"; o = vf::guarded([&] { sink = f.getDescriptorType(i); }); }
  else if (c == kNum + 2) { what = "block"; o = vf::guarded([&] { sink = static_cast<double>(f.getDescriptors(two + 1 + r.below(2)).size()); }); }
  else if (c == kNum + 3) { what = "missing type"; o = vf::guarded([&] { sink = static_cast<double>(f.getDescriptorsOfType(3).size()); }); }
  else if (c == kNum + 4) { what = "too many"; o = vf::guarded([&] { extendOne(f, 1 + static_cast<int>(r.below(kNum - 1)), MX::Zero(1, 1).replicate(3, 1), true, 0); }); }
  else { what = "other number of types"; o = vf::guarded([&] { f.setDescriptorTypes(VI::Zero(two + 2)); }); }
  (void)sink;
  VF_EXPECT(o == vf::kFatal, "refused:" + what, "%s %zu of %d: %s", what.c_str(), i, total, vf::outcomeName(o));
  vf::evaluated(vf::mix(c * 1000 + n * 100 + m * 10) ^ i, true, what);
}

// Raw image coordinates and viewing rays of keypoints.
void geometry(Rng& r, uint64_t) {
  Cam a = someCam(r), b = someCam(r);
  VisualFrame f;
  f.setCameraGeometry(a.cam);
  f.setRawCameraGeometry(b.cam);
  const int n = 1 + static_cast<int>(r.below(12));
  Eigen::Matrix2Xd k(2, n);
  for (int i = 0; i < n; ++i) k.col(i) = V2(r.uni(-0.2, 1.2) * a.w, r.uni(-0.2, 1.2) * a.h);
  const int split = static_cast<int>(r.below(n + 1));
  f.setKeypointMeasurements(k.leftCols(split));
  f.extendKeypointMeasurements(k.rightCols(n - split));
  f.setDescriptors(Desc(2, split), 0, 4);
  f.extendDescriptors(Desc(3, n - split), 1);
  vf::detail(a.show() + " raw " + b.show());
  Eigen::Matrix2Xd out;
  std::vector<ProjectionResult> res;
  if (!vf::mustReturn("raw", "raw coordinates", [&] { f.toRawImageCoordinatesVectorized(k, &out, &res); })) return;
  if (!VF_EXPECT(out.cols() == n && static_cast<int>(res.size()) == n, "raw-size", "%d results for %d keypoints", static_cast<int>(res.size()), n)) return;
  int seen = 0;
  for (int i = 0; i < n; ++i) {
    V3 ray; V2 want(0, 0), one(-1, -1), two(-1, -1);
    const bool ok = a.cam->backProject3(k.col(i), &ray);
    const ProjectionResult pr = ok ? b.cam->project3(ray, &want) : ProjectionResult(ProjectionResult::PROJECTION_INVALID);
    ProjectionResult r1, r2;
    if (!vf::mustReturn("raw", "raw coordinates of one keypoint", [&] { r1 = f.toRawImageCoordinates(k.col(i), &one); r2 = f.getKeypointInRawImageCoordinates(i, &two); })) return;
    VF_EXPECT(r1 == pr && r2 == pr && res[i] == pr, "raw-verdict", "keypoint %d has verdicts %d %d %d instead of %d", i, static_cast<int>(r1.getDetailedStatus()), static_cast<int>(r2.getDetailedStatus()), static_cast<int>(res[i].getDetailedStatus()), static_cast<int>(pr.getDetailedStatus()));
    if (pr.isKeypointVisible()) {
      ++seen;
      VF_EXPECT(one == want && two == want && (out.col(i) - want).norm() < 1e-9 * (1 + want.norm()), "raw-point", "keypoint %d is at another place of the raw image", i);
    }
  }
  // Rays.
  for (int t : {4, 1}) {
    const int start = t == 4 ? 0 : split, size = t == 4 ? split : n - split;
    std::vector<size_t> idx;
    for (int j = 0; size && j < static_cast<int>(r.below(8)) + 1; ++j) idx.push_back(r.below(size));
    std::vector<unsigned char> ok(5, 3);
    Eigen::Matrix3Xd rays;
    if (!vf::mustReturn("rays", "bearing vectors", [&] { rays = f.getNormalizedBearingVectors(idx, t, &ok); })) return;
    if (!VF_EXPECT(rays.cols() == static_cast<int>(idx.size()) && ok.size() == idx.size(), "rays-size", "%d rays for %zu keypoints", static_cast<int>(rays.cols()), idx.size())) continue;
    for (size_t j = 0; j < idx.size(); ++j) {
      V3 want;
      const bool w = a.cam->backProject3(k.col(start + idx[j]), &want);
      VF_EXPECT(static_cast<bool>(ok[j]) == w, "rays-success", "ray %zu has success %d instead of %d", j, ok[j], w);
      if (w && rays.col(j).allFinite() && want.allFinite()) VF_EXPECT((rays.col(j) - want.normalized()).norm() < 1e-12, "rays", "ray %zu belongs to another keypoint (off by %g)", j, (rays.col(j) - want.normalized()).norm());
    }
    if (r.chance(0.05)) {
      idx.push_back(size + r.below(2));
      VF_EXPECT(vf::guarded([&] { f.getNormalizedBearingVectors(idx, t, &ok); }) == vf::kFatal, "rays-refused", "a ray of the missing keypoint %zu of %d", idx.back(), size);
    }
  }
  vf::evaluated(vf::hashBytes(k.data(), k.size() * 8), seen > 0, a.show());
}

// ---- C36 -------------------------------------------------------------------
NCamera::Ptr someRig(Rng& r, size_t n) {
  TransformationVector T;
  std::vector<Camera::Ptr> cams;
  for (size_t i = 0; i < n; ++i) { cams.push_back(someCam(r).cam); Transformation t; t.setRandom(); T.push_back(t); }
  NCameraId id; generateId(&id);
  return NCamera::Ptr(new NCamera(id, T, cams, "rig"));
}
VisualFrame::Ptr someFrame(Rng& r, const Camera::ConstPtr& cam) {
  VisualFrame::Ptr f(new VisualFrame);
  const int n = 1 + static_cast<int>(r.below(5));
  f->setCameraGeometry(cam);
  f->setTimestampNanoseconds(r.chance(0.1) ? static_cast<int64_t>(r.next() >> 1) : static_cast<int64_t>(r.below(1000)));
  FrameId id; generateId(&id); f->setId(id);
  setOne(*f, kKp, someData(r, kKp, n));
  setOne(*f, kTrack, someData(r, kTrack, n));
  f->setDescriptors(someDesc(r, 4, n));
  if (r.chance(0.7)) f->setRawImage(cv::Mat::zeros(3, 3, CV_8UC1));
  if (r.chance(0.2)) f->invalidate();
  return f;
}
void sets(Rng& r, uint64_t) {
  const size_t n = 1 + r.below(5);
  NCamera::Ptr rig = someRig(r, n);
  NFramesId id; generateId(&id);
  std::shared_ptr<VisualNFrame> s;
  int how = static_cast<int>(r.below(3));
  if (!vf::mustReturn("make", "making a frame set", [&] {
        if (how == 0) s.reset(new VisualNFrame(id, static_cast<unsigned>(n)));
        else if (how == 1) s.reset(new VisualNFrame(id, rig));
        else { s.reset(new VisualNFrame(rig)); id = s->getId(); }
      })) return;
  VF_EXPECT(s->getId() == id && id.isValid() && s->getNumFrames() == n, "make", "a new set has another id or number of frames");
  bool rigged = how != 0;
  std::vector<VisualFrame::Ptr> m(n);
  std::string log = vf::fmt("%zu cameras, made by %d", n, how);
  uint64_t h = n * 3 + how;
  int copies = 0;
  for (int step = 0, e = 3 + static_cast<int>(r.below(12)); step < e; ++step) {
    const size_t i = r.below(n);
    const int k = static_cast<int>(r.below(9));
    if (k <= 4) {
      m[i] = someFrame(r, rig->getCameraShared(i));
      log += vf::fmt("; set %zu at %lld", i, static_cast<long long>(m[i]->getTimestampNanoseconds()));
      if (!vf::mustReturn("set", "setting a frame", [&] { s->setFrame(i, m[i]); })) return;
    } else if (k == 5) {
      m[i] = nullptr;
      log += vf::fmt("; unset %zu", i);
      if (!vf::mustReturn("unset", "unsetting a frame", [&] { s->unSetFrame(i); })) return;
    } else if (k == 6) {
      // Another rig: its cameras go to the frames.
      rig = someRig(r, n);
      log += "; new rig";
      if (!vf::mustReturn("rig", "setting the rig", [&] { s->setNCameras(rig); })) return;
      rigged = true;
      for (size_t j = 0; j < n; ++j) if (m[j]) VF_EXPECT(m[j]->getCameraGeometry() == rig->getCameraShared(j), "rig-cameras", "frame %zu has a camera that is not the new rig's", j);
    } else {
      std::shared_ptr<VisualNFrame> c;
      log += "; copy";
      if (!vf::mustReturn("copy", "copying", [&] {
            if (r.chance(0.5)) c.reset(new VisualNFrame(*s));
            else { c.reset(new VisualNFrame(someRig(r, 1 + r.below(3)))); *c = *s; }
          })) return;
      bool eq = false, eq2 = false;
      if (!vf::mustReturn("compare", "comparing a copy", [&] { eq = *c == *s; eq2 = c->compareWithoutCameraSystem(*s); })) return;
      VF_EXPECT(eq && eq2, "copy-equal", "a copy compares different");
      for (size_t j = 0; j < n; ++j) {
        VF_EXPECT(c->isFrameSet(j) == static_cast<bool>(m[j]), "copy-frames", "frame %zu of the copy", j);
        if (!m[j] || !c->isFrameSet(j)) continue;
        VisualFrame::Ptr f = c->getFrameShared(j);
        VF_EXPECT(f != m[j] && *f == *m[j] && f->getId() == m[j]->getId() && f->getCameraGeometry() == m[j]->getCameraGeometry(), "copy-frames", "frame %zu of the copy is shared or differs", j);
      }
      // Any difference is noticed, and does not reach the original.
      const int what = static_cast<int>(r.below(4));
      const size_t j = r.below(n);
      bool differs = true;
      const int64_t before = m[j] ? m[j]->getTimestampNanoseconds() : 0;
      if (what == 0) { NFramesId x; generateId(&x); c->setId(x); }
      else if (what == 1 && m[j]) c->getFrameShared(j)->setTimestampNanoseconds(before ^ 4);
      else if (what == 2 && m[j]) c->unSetFrame(j);
      else if (what == 3 && !m[j]) c->setFrame(j, someFrame(r, rig->getCameraShared(j)));
      else differs = false;
      if (differs) {
        bool a = true, b = true, d = true;
        if (!vf::mustReturn("compare", "comparing different sets", [&] { a = *c == *s; b = *s == *c; d = c->compareWithoutCameraSystem(*s); })) return;
        VF_EXPECT(!a && !b && !d, vf::fmt("different:%d", what), "sets with a difference (%d) at %zu compare equal", what, j);
        VF_EXPECT(s->isFrameSet(j) == static_cast<bool>(m[j]) && (!m[j] || m[j]->getTimestampNanoseconds() == before), "copy-independent", "changing a copy changes the original");
      } else {
        s = c;
        for (size_t q = 0; q < n; ++q) m[q] = s->getFrameShared(q);
      }
      ++copies;
    }
    h = vf::mix(h) ^ (k * 16 + i);
    vf::detail(log);
    bool all = true;
    int64_t lo = std::numeric_limits<int64_t>::max(), hi = std::numeric_limits<int64_t>::min();
    const VisualNFrame& cs = *s;
    for (size_t j = 0; j < n; ++j) {
      VF_EXPECT(s->isFrameSet(j) == static_cast<bool>(m[j]) && s->getFrameShared(j) == m[j] && cs.getFrameShared(j) == m[j], "frame", "frame %zu is not the one that was set", j);
      if (m[j]) {
        VF_EXPECT(&s->getFrame(j) == m[j].get() && s->isFrameValid(j) == m[j]->isValid(), "frame", "frame %zu is not the one that was set", j);
        lo = std::min(lo, m[j]->getTimestampNanoseconds());
        hi = std::max(hi, m[j]->getTimestampNanoseconds());
      } else all = false;
      if (rigged) {
        const CameraId cid = rig->getCameraId(j);
        VF_EXPECT(&s->getCamera(j) == &rig->getCamera(j) && s->getCameraId(j) == cid && s->hasCameraWithId(cid) && s->getCameraIndex(cid) == j && s->get_T_C_B(j) == rig->get_T_C_B(j), "camera", "camera %zu is not the rig's", j);
      }
    }
    VF_EXPECT(s->areAllFramesSet() == all, "all-set", "all frames set: %d", !all);
    if (rigged) {
      CameraId none; generateId(&none);
      VF_EXPECT(s->getNumCameras() == n && s->getNCameraShared() == rig && &s->getNCamera() == rig.get() && !s->hasCameraWithId(none) && s->getCameraIndex(none) == static_cast<size_t>(-1), "camera", "the set does not report its rig");
    }
    if (hi >= lo) {
      int64_t a = -1, b = -1;
      if (!vf::mustReturn("span", "asking for the time span", [&] { a = s->getMinTimestampNanoseconds(); b = s->getMaxTimestampNanoseconds(); })) return;
      VF_EXPECT(a == lo && b == hi, "span", "the set spans %lld to %lld instead of %lld to %lld", static_cast<long long>(a), static_cast<long long>(b), static_cast<long long>(lo), static_cast<long long>(hi));
    }
    if (all) {
      bool img = true;
      for (auto& f : m) img = img && f->hasRawImage();
      VF_EXPECT(s->hasRawImagesInAllFrames() == img, "images", "images in all frames: %d", !img);
    }
  }
  bool all = true;
  for (auto& f : m) all = all && f;
  bool img = all;
  for (auto& f : m) img = img && f->hasRawImage();
  if (img) {
    vf::mustReturn("release", "releasing images", [&] { s->releaseRawImagesOfAllFrames(); });
    for (auto& f : m) VF_EXPECT(!f->hasRawImage() && f->getNumKeypointMeasurements() > 0, "release", "an image is left or keypoints are gone");
    vf::mustReturn("clear", "clearing keypoints", [&] { s->clearKeypointChannelsOfAllFrames(); });
    for (auto& f : m) VF_EXPECT(f->getNumKeypointMeasurements() == 0 && f->getTrackIds().size() == 0 && f->getNumDescriptors() == 0, "clear", "keypoints are left");
  }
  vf::evaluated(h ^ vf::hashStr(log), copies > 0, log);
}
void setRefusals(Rng& r, uint64_t) {
  const size_t n = 1 + r.below(3);
  NCamera::Ptr rig = someRig(r, n);
  VisualNFrame s(rig);
  const size_t bad = r.chance(0.5) ? n : n + r.below(5) + (r.chance(0.3) ? size_t(1) << 33 : 0);
  std::string what;
  vf::Outcome o = vf::kOk;
  switch (r.below(9)) {
    case 0: what = "set-beyond"; o = vf::guarded([&] { s.setFrame(bad, someFrame(r, rig->getCameraShared(0))); }); break;
    case 1: what = "get-beyond"; o = vf::guarded([&] { s.getFrameShared(bad); }); break;
    case 2: what = "get-unset"; o = vf::guarded([&] { s.getFrame(0); }); break;
    case 3: what = "other-camera"; o = vf::guarded([&] { s.setFrame(0, someFrame(r, someCam(r).cam)); }); break;
    case 4: what = "null"; o = vf::guarded([&] { s.setFrame(0, nullptr); }); break;
    case 5: what = "min-of-none"; o = vf::guarded([&] { s.getMinTimestampNanoseconds(); }); break;
    case 6: what = "max-of-none"; o = vf::guarded([&] { s.getMaxTimestampNanoseconds(); }); break;
    case 7: what = "other-rig-size"; o = vf::guarded([&] { s.setNCameras(someRig(r, n + 1)); }); break;
    default: what = "valid-unset"; o = vf::guarded([&] { s.isFrameValid(n - 1); });
  }
  VF_EXPECT(o == vf::kFatal, "refused:" + what, "%s: %s", what.c_str(), vf::outcomeName(o));
  vf::evaluated(vf::hashStr(what) ^ bad, true, what);
}
void madeSets(Rng& r, uint64_t) {
  const size_t n = 1 + r.below(4);
  NCamera::Ptr rig = someRig(r, n);
  const int64_t t = static_cast<int64_t>(r.next() >> 2);
  VisualNFrame::Ptr s;
  if (!vf::mustReturn("made", "making an empty set", [&] { s = VisualNFrame::createEmptyTestVisualNFrame(rig, t); })) return;
  VF_EXPECT(s->areAllFramesSet() && s->getMinTimestampNanoseconds() == t && s->getMaxTimestampNanoseconds() == t && s->getId().isValid() && s->getNCameraShared() == rig, "made", "a made set is not complete");
  std::set<std::string> ids;
  for (size_t i = 0; i < n; ++i) {
    VF_EXPECT(s->getFrame(i).getCameraGeometry() == rig->getCameraShared(i) && s->getFrame(i).getNumKeypointMeasurements() == 0, "made", "frame %zu of a made set", i);
    ids.insert(s->getFrame(i).getId().hexString());
  }
  VF_EXPECT(ids.size() == n, "made", "frames of a made set share ids");
  vf::evaluated(static_cast<uint64_t>(t), true);
}
// Tracks of keypoints over frame sets.
void tracks(Rng& r, uint64_t) {
  const size_t n = 1 + r.below(3), len = r.below(8);
  NCamera::Ptr rig = someRig(r, n);
  const size_t tid = r.next() >> r.below(60);
  FeatureTrack t(tid);
  if (r.chance(0.5)) t = FeatureTrack(tid, r.below(100));
  std::vector<std::shared_ptr<VisualNFrame>> sets;
  std::vector<std::pair<size_t, size_t>> at;
  V2 lo(1e300, 1e300), hi(-1e300, -1e300);
  const V2 shift(r.chance(0.4) ? -2000 : 0, r.chance(0.4) ? -2000 : 0);
  VF_EXPECT(!t.hasObservations() && t.getTrackLength() == 0 && t.getTrackId() == tid, "track:fresh", "a fresh track has observations");
  for (size_t i = 0; i < len; ++i) {
    sets.emplace_back(new VisualNFrame(rig));
    const size_t c = r.below(n);
    VisualFrame::Ptr f = someFrame(r, rig->getCameraShared(c));
    Eigen::Matrix2Xd& k = *f->getKeypointMeasurementsMutable();
    k.colwise() += shift;
    sets.back()->setFrame(c, f);
    const size_t j = r.below(f->getNumKeypointMeasurements());
    at.emplace_back(c, j);
    t.addKeypointObservationAtBack(sets.back(), c, j);
  }
  const size_t pops = at.empty() ? 0 : r.below(std::min<size_t>(3, at.size()));
  for (size_t i = 0; i < pops; ++i) { t.popLastKeypointIdentifier(); at.pop_back(); sets.pop_back(); }
  vf::detail(vf::fmt("track of %zu observations at %g %g", at.size(), shift[0], shift[1]));
  if (!VF_EXPECT(t.getTrackLength() == at.size() && t.getKeypointIdentifiers().size() == at.size() && t.hasObservations() == !at.empty(), "track:length", "%zu observations instead of %zu", t.getTrackLength(), at.size())) return;
  for (size_t i = 0; i < at.size(); ++i) {
    const KeypointIdentifier& k = t.getKeypointIdentifiers()[i];
    const VisualFrame& f = sets[i]->getFrame(at[i].first);
    const V2 p = f.getKeypointMeasurement(at[i].second);
    lo = lo.cwiseMin(p); hi = hi.cwiseMax(p);
    VF_EXPECT(k.getFrameIndex() == at[i].first && k.getKeypointIndex() == at[i].second && k.getNFrameId() == sets[i]->getId() && k.getFrameId() == f.getId() && &k.getFrame() == &f && &k.getNFrame() == sets[i].get() && k.getKeypointMeasurement() == p && k.getDescriptor() == f.getDescriptor(at[i].second) && k.getCamera() == rig->getCameraShared(at[i].first) && &k.getNCamera() == rig.get() && k.get_T_C_B() == rig->get_T_C_B(at[i].first), "track:identifier", "observation %zu does not name its keypoint", i);
  }
  if (!at.empty()) {
    VF_EXPECT(&t.getFirstKeypointIdentifier() == &t.getKeypointIdentifiers().front() && &t.getLastKeypointIdentifier() == &t.getKeypointIdentifiers().back(), "track:ends", "first or last observation");
    double d = -1;
    if (vf::mustReturn("track:extent", "the extent of a track", [&] { d = t.getDiagonalSqOfDisparityBoundingBox(); })) {
      const double want = (hi - lo).squaredNorm();
      VF_EXPECT(std::abs(d - want) <= 1e-12 * (1 + want), "track:extent", "the squared diagonal is %.17g instead of %.17g", d, want);
    }
    std::ostringstream out;
    vf::mustReturn("track:print", "printing a track", [&] { out << t; });
    FeatureTrack u(tid + 1);
    u = t;
    u.popLastKeypointIdentifier();
    VF_EXPECT(u < t && t > u && !(t < u) && !(t < t) && t.getTrackLength() == at.size(), "track:order", "tracks are not ordered by length");
    const int a = static_cast<int>(r.below(5)), b = static_cast<int>(r.below(5));
    ContinuedFeatureTrack x(a, t.getFirstKeypointIdentifier()), y(b, t.getLastKeypointIdentifier());
    VF_EXPECT((x < y) == (a < b) && (x > y) == (a > b), "track:continued-order", "continued tracks %d and %d", a, b);
    if (r.chance(0.1)) {
      const size_t c = at[0].first;
      const size_t beyond = sets[0]->getFrame(c).getNumKeypointMeasurements();
      VF_EXPECT(vf::guarded([&] { KeypointIdentifier::create(sets[0], c, beyond); }) == vf::kFatal, "track:refused", "an observation of a missing keypoint");
      VF_EXPECT(vf::guarded([&] { KeypointIdentifier::create(sets[0], n, 0); }) == vf::kFatal, "track:refused", "an observation of a missing frame");
    }
  }
  vf::evaluated(tid ^ vf::hashBytes(at.data(), at.size() * sizeof(at[0])), at.size() > 1, vf::fmt("%zu observations", at.size()));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  if (vf::opts().property == "C35") {
    vf::part("histories", vf::scale(2000, 100000), history);
    vf::part("refusals", vf::scale(120, 2000), refusals);
    vf::part("geometry", vf::scale(1500, 60000), geometry);
  } else {
    vf::part("sets", vf::scale(1500, 60000), sets);
    vf::part("refusals", vf::scale(60, 1000), setRefusals);
    vf::part("made", vf::scale(200, 5000), madeSets);
    vf::part("tracks", vf::scale(3000, 100000), tracks);
  }
  return vf::finish();
}
