// Stand-in for ethzasl_apriltag2: detections come from a script.
#ifndef SHIM_APRILTAGS_TAG_DETECTOR_H_
#define SHIM_APRILTAGS_TAG_DETECTOR_H_
#include <functional>
#include <utility>
#include <vector>
#include <opencv2/core/core.hpp>
#include <opencv2/highgui/highgui.hpp>
#include <opencv2/highgui/highgui_c.h>
namespace AprilTags {
struct TagCodes { int bits; };
struct TagDetection {
  bool good;
  int id;
  std::pair<float, float> p[4];
  static bool sortByIdCompare(const TagDetection& a, const TagDetection& b) { return a.id < b.id; }
  void draw(cv::Mat&) const {}
};
class TagDetector {
 public:
  TagDetector(const TagCodes&, size_t border) : border_(border) {}
  static std::function<std::vector<TagDetection>(const cv::Mat&, size_t border)>& script() {
    static std::function<std::vector<TagDetection>(const cv::Mat&, size_t)> s;
    return s;
  }
  std::vector<TagDetection> extractTags(const cv::Mat& image) { return script()(image, border_); }
 private:
  size_t border_;
};
}  // namespace AprilTags
#endif
