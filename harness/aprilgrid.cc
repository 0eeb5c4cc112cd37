// C47: april grids and their detections.
#include "vf.h"
#include <opencv2/imgproc/imgproc_c.h>
#include <opencv2/imgproc/imgproc.hpp>
#include <fstream>
#include <aslam/calibration/target-aprilgrid.h>

using vf::Rng;
using namespace aslam::calibration;
static int windows = 0;
// No display here.
namespace cv {
void namedWindow(const String&, int) { ++windows; }
void destroyAllWindows() {}
int startWindowThread() { return 0; }
int waitKey(int) { return 13; }
void imshow(const String&, InputArray) { ++windows; }
}  // namespace cv
extern "C" int cvStartWindowThread() { return 0; }

namespace {
typedef TargetAprilGrid::TargetConfiguration Config;
Config someConfig(Rng& r) {
  Config c;
  c.num_tag_rows = 1 + r.below(6);
  c.num_tag_cols = 1 + r.below(6);
  c.tag_size_meter = r.uni(0.01, 0.3);
  c.tag_inbetween_space_meter = c.tag_size_meter * r.uni(0.05, 1);
  c.black_tag_border_bits = 1 + r.below(3);
  return c;
}
// Corner k of a tag, counterclockwise from the lower left: its row and column in the grid of points.
void corner(const Config& c, int tag, int k, size_t* row, size_t* col) {
  *row = 2 * (tag / c.num_tag_cols) + (k >= 2);
  *col = 2 * (tag % c.num_tag_cols) + (k == 1 || k == 2);
}

void grids(Rng& r, uint64_t i) {
  const Config c = someConfig(r);
  vf::detail(vf::fmt("%zux%zu tags of %g, %g apart", c.num_tag_rows, c.num_tag_cols, c.tag_size_meter, c.tag_inbetween_space_meter));
  TargetAprilGrid::Ptr t;
  if (!vf::mustReturn("create", "creating a grid", [&] { t.reset(new TargetAprilGrid(c)); })) return;
  VF_EXPECT(t->rows() == 2 * c.num_tag_rows && t->cols() == 2 * c.num_tag_cols && t->size() == 4 * c.num_tag_rows * c.num_tag_cols, "size", "%zu rows, %zu columns, %zu points", t->rows(), t->cols(), t->size());
  const Config& g = t->getConfig();
  VF_EXPECT(g.num_tag_rows == c.num_tag_rows && g.num_tag_cols == c.num_tag_cols && g.tag_size_meter == c.tag_size_meter && g.tag_inbetween_space_meter == c.tag_inbetween_space_meter && g.black_tag_border_bits == c.black_tag_border_bits, "config", "another configuration");
  for (int tag = 0; tag < static_cast<int>(c.num_tag_rows * c.num_tag_cols); ++tag)
    for (int k = 0; k < 4; ++k) {
      size_t row, col;
      corner(c, tag, k, &row, &col);
      const double pitch = c.tag_size_meter + c.tag_inbetween_space_meter;
      const Eigen::Vector3d want((tag % c.num_tag_cols) * pitch + (k == 1 || k == 2 ? c.tag_size_meter : 0), (tag / c.num_tag_cols) * pitch + (k >= 2 ? c.tag_size_meter : 0), 0);
      const Eigen::Vector3d p = t->gridPoint(row, col);
      VF_EXPECT((p - want).norm() < 1e-12, "point", "corner %d of tag %d is at (%.9g %.9g %.9g) instead of (%.9g %.9g 0)", k, tag, p[0], p[1], p[2], want[0], want[1]);
      VF_EXPECT(t->point(row * t->cols() + col) == p, "point-id", "point %zu differs", row * t->cols() + col);
    }
  Config bad = c;
  const int kind = static_cast<int>(r.below(6));
  switch (kind) {
    case 0: bad.num_tag_rows = 0; break;
    case 1: bad.num_tag_cols = 0; break;
    case 2: bad.tag_size_meter = 0; break;
    case 3: bad.tag_inbetween_space_meter = 0; break;
    case 4: bad.tag_size_meter = -0.1; break;
    default: bad.tag_inbetween_space_meter = -0.1;
  }
  VF_EXPECT(vf::guarded([&] { TargetAprilGrid b(bad); }) == vf::kFatal, vf::fmt("refused-%d", kind), "kind %d was accepted", kind);
  vf::evaluated(vf::hashBytes(t->points().data(), t->points().size() * 8), true, vf::fmt("%zux%zu", c.num_tag_rows, c.num_tag_cols));
}

void files(Rng& r, uint64_t i) {
  const Config c = someConfig(r);
  const double spacing = r.uni(0.05, 1);
  const char* keys[] = {"target_type", "tagCols", "tagRows", "tagSize", "tagSpacing"};
  std::string values[] = {r.chance(0.5) ? "'aprilgrid'" : "aprilgrid", vf::fmt("%zu", c.num_tag_cols), vf::fmt("%zu", c.num_tag_rows), vf::fmt("%.17g", c.tag_size_meter), vf::fmt("%.17g", spacing)};
  const int kind = r.chance(0.4) ? 0 : 1 + static_cast<int>(r.below(6)), which = static_cast<int>(r.below(5));
  int order[] = {0, 1, 2, 3, 4};
  for (int e = 5; e > 1; --e) std::swap(order[e - 1], order[r.below(e)]);
  if (kind == 2) values[which] = which ? (r.chance(0.5) ? "many" : "[1, 2]") : "[aprilgrid]";
  if (kind == 3) values[which] = which ? "0" : "checkerboard";
  if (kind == 4) values[which] = which > 2 ? "-1" : which ? "0" : "''";
  std::string text = r.chance(0.3) ? "# a target\n" : "";
  for (int e : order) if (!(kind == 1 && e == which)) text += std::string(keys[e]) + ": " + values[e] + "\n";
  if (r.chance(0.3)) text += "other: 5\n";
  if (kind == 5) text = r.chance(0.5) ? "- a list\n" : r.chance(0.5) ? "" : "just text\n";
  if (kind == 6) text = r.chance(0.5) ? "target_type: 'aprilgrid\n" : "a: [1, 2\nb: }\n";
  const std::string file = vf::fmt("grid%llu.yaml", static_cast<unsigned long long>(i));
  const bool missing = kind == 6 && r.chance(0.2);
  if (!missing) std::ofstream(file) << text;
  vf::detail(vf::fmt("kind %d of entry %s: ", kind, keys[which]) + text);
  // Numbers on the stack must not stand in for missing ones.
  volatile double junk[64];
  for (volatile double& v : junk) v = r.uni(0.1, 1);
  Config got;
  const vf::Outcome o = vf::guarded([&] { got = Config::fromYaml(file); });
  std::remove(file.c_str());
  if (kind) {
    VF_EXPECT(o == vf::kFatal, vf::fmt("file-refused-%d", kind), "kind %d, entry %s: %s", kind, keys[which], vf::outcomeName(o));
  } else if (VF_EXPECT(o == vf::kOk, "file", "a good file was refused: %s", vf::outcomeName(o))) {
    VF_EXPECT(got.num_tag_rows == c.num_tag_rows && got.num_tag_cols == c.num_tag_cols && got.tag_size_meter == c.tag_size_meter && std::abs(got.tag_inbetween_space_meter - spacing * c.tag_size_meter) < 1e-12, "file-values", "%zux%zu tags of %g, %g apart", got.num_tag_rows, got.num_tag_cols, got.tag_size_meter, got.tag_inbetween_space_meter);
  }
  vf::evaluated(vf::hashStr(text), true, vf::fmt("kind %d", kind));
}

void detections(Rng& r, uint64_t) {
  const Config c = someConfig(r);
  const int tags = static_cast<int>(c.num_tag_rows * c.num_tag_cols), w = 120 + static_cast<int>(r.below(200)), h = 100 + static_cast<int>(r.below(200));
  TargetAprilGrid::Ptr target(new TargetAprilGrid(c));
  DetectorAprilGrid::DetectorConfiguration dc;
  dc.run_subpixel_refinement = r.chance(0.5);
  dc.max_subpixel_refine_displacement_px_sq = r.chance(0.3) ? 0 : r.uni(0, 4);
  dc.min_visible_tags_for_valid_obs = 1 + r.below(5);
  dc.min_border_distance_px = r.chance(0.3) ? 4 : r.uni(0.5, 12);
  const double m = dc.min_border_distance_px;
  cv::Mat image(h, w, CV_8UC1);
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) image.at<unsigned char>(y, x) = static_cast<unsigned char>((x / 9 + y / 7) % 2 ? 200 + r.below(20) : 20 + r.below(20));
  std::vector<AprilTags::TagDetection> found;
  std::map<int, size_t> good;  // tag to detection
  bool twice = false;
  for (int tag = 0; tag < tags + 3; ++tag) {
    if (r.chance(0.4)) continue;
    AprilTags::TagDetection d;
    d.id = tag;
    d.good = r.chance(0.9);
    bool fits = true;
    const double bx = r.uni(m + 1, w - m - 30), by = r.uni(m + 1, h - m - 30);
    for (int k = 0; k < 4; ++k) {
      double x = bx + (k == 1 || k == 2 ? 20 : 0) + r.uni(0, 5), y = by + (k >= 2 ? 20 : 0) + r.uni(0, 5);
      d.p[k] = std::make_pair(static_cast<float>(x), static_cast<float>(y));
    }
    if (r.chance(0.25)) {  // One corner at one of the borders.
      const int k = static_cast<int>(r.below(4)), side = static_cast<int>(r.below(4));
      const double by_how_much = r.uni(0.01, 3) * (r.chance(0.5) ? 1 : -1);
      if (side == 0) d.p[k].first = static_cast<float>(m + by_how_much);
      if (side == 1) d.p[k].first = static_cast<float>(w - m - by_how_much);
      if (side == 2) d.p[k].second = static_cast<float>(m + by_how_much);
      if (side == 3) d.p[k].second = static_cast<float>(h - m - by_how_much);
    }
    for (int k = 0; k < 4; ++k) fits &= d.p[k].first >= m && d.p[k].second >= m && d.p[k].first <= w - m && d.p[k].second <= h - m;
    const bool counts = d.good && fits && tag < tags;
    found.push_back(d);
    if (counts) good[tag] = found.size() - 1;
    if (r.chance(0.02)) {  // A second tag with this id.
      found.push_back(d);
      twice |= counts;
    }
  }
  std::vector<size_t> at(found.size());
  for (size_t i = 0; i < at.size(); ++i) at[i] = i;
  for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[r.below(i)]);
  std::vector<AprilTags::TagDetection> shuffled;
  for (size_t i : at) shuffled.push_back(found[i]);
  size_t border = 0;
  const void* seen = nullptr;
  AprilTags::TagDetector::script() = [&](const cv::Mat& im, size_t b) { border = b; seen = im.data; return shuffled; };
  vf::detail(vf::fmt("%zux%zu tags, %zu detections, %zu good, border %g, at least %zu, refinement %d within %g, %dx%d", c.num_tag_rows, c.num_tag_cols, found.size(), good.size(), m, dc.min_visible_tags_for_valid_obs, dc.run_subpixel_refinement, dc.max_subpixel_refine_displacement_px_sq, w, h));
  const cv::Mat original = image.clone();
  TargetObservation::Ptr o;
  windows = 0;
  if (!vf::mustReturn("detect", "detecting", [&] { DetectorAprilGrid d(target, dc); o = d.detectTargetInImage(image); })) return;
  VF_EXPECT(border == c.black_tag_border_bits && seen == image.data, "detector", "the tags were looked for with border %zu instead of %zu", border, c.black_tag_border_bits);
  VF_EXPECT(cv::countNonZero(image != original) == 0, "image", "the image was changed");
  size_t count = good.size();
  if (twice) {
    for (const auto& d : found) (void)d;
    VF_EXPECT(!o, "twice", "an observation with two tags of the same id");
    vf::count("refused for repeated tags");
    vf::evaluated(vf::hashBytes(shuffled.data(), shuffled.size() * sizeof(shuffled[0])), true, "repeated tag");
    return;
  }
  if (count < dc.min_visible_tags_for_valid_obs) {
    VF_EXPECT(!o, "too-few", "an observation of %zu tags, %zu are needed", count, dc.min_visible_tags_for_valid_obs);
    vf::count("refused for too few tags");
    vf::evaluated(vf::hashBytes(shuffled.data(), shuffled.size() * sizeof(shuffled[0])), false, "too few");
    return;
  }
  if (!VF_EXPECT(o != nullptr, "missing", "no observation of %zu tags, %zu are needed", count, dc.min_visible_tags_for_valid_obs)) return;
  VF_EXPECT(windows == 0, "window", "a window was opened");
  VF_EXPECT(o->getImageWidth() == static_cast<uint32_t>(w) && o->getImageHeight() == static_cast<uint32_t>(h) && o->getTarget() == target, "image-size", "an image of %ux%u", o->getImageWidth(), o->getImageHeight());
  // The corners, refined on their own.
  size_t expected = 0;
  for (const auto& g : good)
    for (int k = 0; k < 4; ++k) {
      size_t row, col;
      corner(c, g.first, k, &row, &col);
      const int id = static_cast<int>(row * target->cols() + col);
      const cv::Point2f raw(found[g.second].p[k].first, found[g.second].p[k].second);
      std::vector<cv::Point2f> p(1, raw);
      if (dc.run_subpixel_refinement) cv::cornerSubPix(original, p, cv::Size(2, 2), cv::Size(-1, -1), cv::TermCriteria(CV_TERMCRIT_EPS + CV_TERMCRIT_ITER, 30, 0.1));
      const double moved = std::pow(static_cast<double>(p[0].x) - raw.x, 2) + std::pow(static_cast<double>(p[0].y) - raw.y, 2);
      if (std::abs(moved - dc.max_subpixel_refine_displacement_px_sq) < 1e-5 && moved > 0) { expected = size_t(-1); continue; }
      const bool kept = moved <= dc.max_subpixel_refine_displacement_px_sq;
      if (kept && expected != size_t(-1)) ++expected;
      Eigen::Vector2d q;
      const bool has = o->getObservedCornerById(id, &q);
      VF_EXPECT(has == kept, "corner", "corner %d of tag %d, moved by %g pixels squared, is %sreported", k, g.first, moved, has ? "" : "not ");
      if (has && kept) VF_EXPECT((q - Eigen::Vector2d(p[0].x, p[0].y)).norm() < 1e-4, "position", "corner %d of tag %d is at (%.7g %.7g) instead of (%.7g %.7g)", k, g.first, q[0], q[1], p[0].x, p[0].y);
      if (!kept) vf::count("corners that moved too far");
    }
  if (expected != size_t(-1)) VF_EXPECT(o->numObservedCorners() == expected && static_cast<size_t>(o->getObservedCorners().cols()) == expected, "count", "%zu corners instead of %zu", o->numObservedCorners(), expected);
  std::set<int> ids(o->getObservedCornerIds().data(), o->getObservedCornerIds().data() + o->numObservedCorners());
  VF_EXPECT(ids.size() == o->numObservedCorners(), "distinct", "%zu ids of %zu corners", ids.size(), o->numObservedCorners());
  vf::count("corners observed", o->numObservedCorners());
  vf::evaluated(vf::hashBytes(shuffled.data(), shuffled.size() * sizeof(shuffled[0])), true, vf::fmt("%zu tags", count));
}
}  // namespace

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::part("grids", vf::scale(2000, 50000), grids);
  vf::part("files", vf::scale(2000, 40000), files);
  vf::part("detections", vf::scale(2500, 60000), detections);
  return vf::finish();
}
