#ifndef SHIM_APRILTAGS_TAG36H11_H_
#define SHIM_APRILTAGS_TAG36H11_H_
#include "TagDetector.h"
namespace AprilTags { static const TagCodes tagCodes36h11 = {36}; }
#endif
