// C46: pictures of keypoints and matches.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <opencv2/imgproc/imgproc.hpp>
#include <aslam/common/memory.h>
#include <aslam/visualization/basic-visualization.h>

using vf::Rng;
namespace {
typedef aslam::VisualFrame Frame;
typedef Frame::DescriptorsT Desc;
struct Set { Frame::Ptr frame; Eigen::Matrix2Xd own; cv::Mat image; };

// A frame whose keypoints of `type` are `own`, possibly among others.
Set someSet(Rng& r, int w, int h, int type, int n) {
  Set s;
  s.frame.reset(new Frame);
  s.own.resize(2, n);
  for (int i = 0; i < n; ++i) {
    s.own.col(i) = r.chance(0.8) ? Eigen::Vector2d(r.uni(0, w), r.uni(0, h)) : Eigen::Vector2d(r.uni(-2, 3) * w, r.uni(-2, 3) * h);
    if (r.chance(0.1)) s.own.col(i) << (r.chance(0.5) ? 0 : w - 1), (r.chance(0.5) ? 0 : h - 1);
  }
  const int before = r.chance(0.5) ? 0 : 1 + static_cast<int>(r.below(4)), after = r.chance(0.5) ? 0 : 1 + static_cast<int>(r.below(4));
  Eigen::Matrix2Xd all(2, before + n + after);
  for (int i = 0; i < all.cols(); ++i) all.col(i) << r.uni(0, w), r.uni(0, h);
  all.middleCols(before, n) = s.own;
  s.frame->setKeypointMeasurements(all);
  bool first = true;
  auto put = [&](int k, int t) {
    if (!k) return;
    const Desc d = Desc::Zero(4, k);
    if (first) s.frame->setDescriptors(d, 0, t); else s.frame->extendDescriptors(d, t);
    first = false;
  };
  put(before, type + 1);
  put(n, type);
  put(after, type + 2);
  cv::Mat big(h + 3, w + 5, CV_8UC1);
  for (int y = 0; y < big.rows; ++y) for (int x = 0; x < big.cols; ++x) big.at<unsigned char>(y, x) = static_cast<unsigned char>(r.chance(0.2) ? 255 * r.below(2) : r.below(256));
  s.image = r.chance(0.5) ? big(cv::Rect(2, 1, w, h)) : cv::Mat(big(cv::Rect(2, 1, w, h)).clone());
  s.frame->setRawImage(s.image);
  return s;
}
bool drawn(const cv::Mat& gray, const cv::Mat& got, int x, int y) {
  const unsigned char g = gray.at<unsigned char>(y, x);
  return got.at<cv::Vec3b>(y, x) != cv::Vec3b(g, g, g);
}
double toSegment(Eigen::Vector2d p, Eigen::Vector2d a, Eigen::Vector2d b) {
  const Eigen::Vector2d d = b - a;
  const double n = d.squaredNorm(), t = n > 0 ? std::min(1.0, std::max(0.0, (p - a).dot(d) / n)) : 0;
  return (p - a - t * d).norm();
}
Eigen::Vector2d pixel(const Eigen::Vector2d& p) { return Eigen::Vector2d(std::trunc(p[0]), std::trunc(p[1])); }
bool within(const Eigen::Vector2d& p, int w, int h, double margin = 0) { return p[0] >= margin && p[1] >= margin && p[0] <= w - 1 - margin && p[1] <= h - 1 - margin; }

bool sameFrame(Set& s, const cv::Mat& original, const Eigen::Matrix2Xd& all) {
  cv::Mat now = s.frame->getRawImage();
  return now.size() == original.size() && cv::countNonZero(now != original) == 0 && s.frame->getKeypointMeasurements() == all;
}

void keypoints(Rng& r, uint64_t) {
  const int w = 1 + static_cast<int>(r.below(80)), h = 1 + static_cast<int>(r.below(60)), type = static_cast<int>(r.below(4));
  const int n = r.chance(0.1) ? 0 : 1 + static_cast<int>(r.below(6));
  Set s = someSet(r, w, h, type, n);
  const cv::Mat original = s.image.clone();
  const Eigen::Matrix2Xd all = s.frame->getKeypointMeasurements();
  cv::Mat got;
  const int used = static_cast<int>(r.below(3));
  if (used == 1) got = cv::Mat(h, w, CV_8UC3, cv::Scalar(1, 2, 3));
  if (used == 2) got = cv::Mat(2, 3, CV_8UC1, cv::Scalar(9));
  const cv::Mat before = got.clone();
  vf::detail(vf::fmt("%d keypoints in %dx%d", n, w, h));
  if (!vf::mustReturn("draw", "drawing keypoints", [&] { aslam_cv_visualization::drawKeypoints(*s.frame, &got, type); })) return;
  VF_EXPECT(sameFrame(s, original, all), "frame", "the frame was changed");
  if (!n) {
    VF_EXPECT(got.size() == before.size() && got.type() == before.type() && (got.empty() || std::memcmp(got.data, before.data, got.total() * got.elemSize()) == 0), "nothing", "the picture was changed without keypoints of the type");
    vf::count("frames without keypoints of the type");
    return;
  }
  if (!VF_EXPECT(got.size() == original.size() && got.type() == CV_8UC3, "picture", "a picture of %dx%d type %d for an image of %dx%d", got.cols, got.rows, got.type(), w, h)) return;
  for (int i = 0; i < n; ++i) {
    const Eigen::Vector2d c = pixel(s.own.col(i));
    if (!within(c, w, h)) continue;
    if (w < 2 && h < 2) continue;
    bool any = false;
    for (int y = static_cast<int>(c[1]) - 1; y <= c[1] + 1; ++y)
      for (int x = static_cast<int>(c[0]) - 1; x <= c[0] + 1; ++x) any |= x >= 0 && y >= 0 && x < w && y < h && drawn(original, got, x, y);
    VF_EXPECT(any, "keypoint", "keypoint %d at (%g %g) is not marked", i, s.own(0, i), s.own(1, i));
  }
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      if (!drawn(original, got, x, y)) continue;
      bool near = false;
      for (int i = 0; i < n; ++i) near |= (pixel(s.own.col(i)) - Eigen::Vector2d(x, y)).lpNorm<Eigen::Infinity>() <= 3;
      if (!VF_EXPECT(near, "elsewhere", "pixel (%d %d) is drawn on without a keypoint", x, y)) return;
    }
  vf::count("keypoints drawn", n);
  vf::evaluated(vf::hashBytes(s.own.data(), s.own.size() * 8), true, vf::fmt("%d keypoints", n));
}

void matches(Rng& r, uint64_t) {
  const int w = 20 + static_cast<int>(r.below(80)), h = 20 + static_cast<int>(r.below(60)), type = static_cast<int>(r.below(4));
  const int n1 = 1 + static_cast<int>(r.below(6)), n0 = 1 + static_cast<int>(r.below(6));
  Set s1 = someSet(r, w, h, type, n1), s0 = someSet(r, w, h, type, n0);
  const cv::Mat original = s1.image.clone();
  const Eigen::Matrix2Xd all = s1.frame->getKeypointMeasurements();
  aslam::FrameToFrameMatches m;
  const size_t k = r.below(4);
  for (size_t i = 0; i < k; ++i) m.emplace_back(static_cast<int>(r.below(n1)), static_cast<int>(r.below(n0)));
  cv::Mat got;
  vf::detail(vf::fmt("%zu matches of %d and %d keypoints in %dx%d", k, n1, n0, w, h));
  if (r.chance(0.1)) {
    aslam::FrameToFrameMatches bad = m;
    const int kind = static_cast<int>(r.below(4));
    bad.emplace_back(kind == 0 ? n1 : kind == 1 ? -1 : 0, kind == 2 ? n0 : kind == 3 ? -1 : 0);
    VF_EXPECT(vf::guarded([&] { aslam_cv_visualization::drawKeypointMatches(*s1.frame, *s0.frame, bad, type, &got); }) != vf::kOk, "refused", "a match of keypoint %d of %d with %d of %d was accepted", bad.back().first, n1, bad.back().second, n0);
    got = cv::Mat();
  }
  if (!vf::mustReturn("draw-matches", "drawing matches", [&] { aslam_cv_visualization::drawKeypointMatches(*s1.frame, *s0.frame, m, type, &got); })) return;
  VF_EXPECT(sameFrame(s1, original, all), "frame", "the frame was changed");
  if (!VF_EXPECT(got.size() == original.size() && got.type() == CV_8UC3, "picture", "a picture of %dx%d type %d for an image of %dx%d", got.cols, got.rows, got.type(), w, h)) return;
  size_t lines = 0;
  for (const auto& e : m) {
    const Eigen::Vector2d a = pixel(s0.own.col(e.second)), b = pixel(s1.own.col(e.first));
    // The circle around the newer keypoint.
    if (within(b, w, h, 5)) {
      int on = 0, of = 0;
      for (int t = 0; t < 16; ++t) {
        const int x = static_cast<int>(std::lround(b[0] + 4 * std::cos(t * M_PI / 8))), y = static_cast<int>(std::lround(b[1] + 4 * std::sin(t * M_PI / 8)));
        ++of;
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) if (drawn(original, got, x + dx, y + dy)) { ++on; dy = dx = 2; }
      }
      VF_EXPECT(on == of, "match-circle", "the keypoint at (%g %g) of the newer frame is not marked", s1.own(0, e.first), s1.own(1, e.first));
    }
    for (double t : {0.1, 0.35, 0.5, 0.8}) {
      const Eigen::Vector2d p = a + t * (b - a);
      if (!within(p, w, h, 1)) continue;
      bool any = false;
      for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) any |= drawn(original, got, static_cast<int>(std::lround(p[0])) + dx, static_cast<int>(std::lround(p[1])) + dy);
      VF_EXPECT(any, "match-line", "the line from (%g %g) to (%g %g) is missing at (%g %g)", a[0], a[1], b[0], b[1], p[0], p[1]);
      ++lines;
    }
  }
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      if (!drawn(original, got, x, y)) continue;
      bool near = false;
      for (const auto& e : m) {
        const Eigen::Vector2d a = pixel(s0.own.col(e.second)), b = pixel(s1.own.col(e.first)), p(x, y);
        near |= std::abs((p - b).norm() - 4) <= 1.5 || toSegment(p, a, b) <= 2;
      }
      if (!VF_EXPECT(near, "match-elsewhere", "pixel (%d %d) is drawn on without a match", x, y)) return;
    }
  vf::count("points of lines found", lines);
  vf::evaluated(vf::hashBytes(s1.own.data(), s1.own.size() * 8, k), k > 0, vf::fmt("%zu matches", k));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("keypoints", vf::scale(4000, 100000), keypoints);
  vf::part("matches", vf::scale(4000, 100000), matches);
  return vf::finish();
}
