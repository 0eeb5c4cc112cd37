#!/usr/bin/env python3
"""Source of properties.jsonl (run it to rewrite that file)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


CM = "aslam_cv_common/include/aslam/common/"
CS = "aslam_cv_common/src/"

prop("C01", "A thread pool runs every accepted task exactly once and delivers its outcome",
     "Every task a thread pool accepts, from any thread including its own workers, is executed exactly once with the arguments it was given. Its return value or exception arrives through the returned future, with the task's side effects visible to whoever obtained the outcome. Captured state is released when the pool is gone.",
     ["schedules", "histories", "inputs"], "any number of workers and producers, any interleaving of enqueueing, execution, stopping and destruction",
     "The existing tests run one fixed program per case; lost, duplicated or mis-delivered tasks depend on the interleaving of producers and workers.",
     [CM + "thread-pool.h", CS + "thread-pool.cc"],
     [("task queue guarded by one mutex, packaged tasks", CM + "thread-pool.h"), ("worker loop removing a task under the mutex", CS + "thread-pool.cc")],
     ["values, exceptions and validity of the returned futures", "start/end events recorded by the tasks"],
     state=[("task queue", "accepted tasks that have not started", CM + "thread-pool.h")])
prop("C02", "Tasks of one exclusivity group run one at a time, in enqueue order",
     "Two tasks enqueued with the same exclusivity group never overlap in time, and if one was enqueued before the other it runs first and its effects are visible to the other. With a single worker all tasks start in the order in which they were enqueued.",
     ["schedules", "histories"], "any mix of groups and non-exclusive tasks, any number of workers, any schedule",
     "The ordering test uses one group pattern and a handful of sleeps; a violated exclusion shows up only in particular interleavings of workers finishing and picking tasks.",
     [CM + "thread-pool.h", CS + "thread-pool.cc"],
     [("per-group guard set while a task of the group runs", CS + "thread-pool.cc")],
     ["start/end events per group", "unsynchronised per-group data under a race detector"])
prop("C03", "A thread pool never stalls, drains accepted work and reports its state truly",
     "No worker stays asleep while a queued task could run, even when other threads wait for the queue to empty. Waiting for an empty queue returns, and only after every accepted task has finished; the counts of active and queued tasks agree with that. After a stop request new tasks are refused with an invalid future, while accepted ones still complete before destruction returns.",
     ["schedules", "histories"], "any schedule of producers, workers, waiters, stop requests and destruction",
     "Liveness depends on which thread a notification reaches; the tests have one waiter and no task that depends on another.",
     [CM + "thread-pool.h", CS + "thread-pool.cc"],
     [("condition variable shared by workers and waiters", CM + "thread-pool.h"), ("stop flag and final drain in the worker loop", CS + "thread-pool.cc")],
     ["return of waiting calls", "validity of futures after a stop", "active and queued task counts"])
prop("C04", "A reader-writer lock never lets a writer coexist with anyone else",
     "While one thread holds a reader-writer lock for writing, however it got there (acquisition, upgrade, scoped guard or moved guard), no other thread holds it for reading or writing, and data written under the lock is seen by later holders without data races. Readers may share. This holds for the default and the reader-first lock.",
     ["schedules", "histories"], "any number of threads, any sequence of read, write, upgrade and guard moves, any schedule",
     "The tests run one fixed pattern on the default lock only; the reader-first lock and mixed upgrades have no test.",
     [CM + "reader-writer-lock.h", CS + "reader-writer-lock.cc", CM + "reader-first-reader-writer-lock.h", CS + "reader-first-reader-writer-lock.cc"],
     [("reader count, writer flag, pending counters under one mutex", CS + "reader-writer-lock.cc")],
     ["occupancy counters and unsynchronised data touched by the holders"])
prop("C05", "Reader-writer locks keep their upgrade, preference and progress promises",
     "An upgrade either succeeds with no other writer in between, so that what was read stays current, or fails because another upgrade is pending and gives up the read access. A waiting writer keeps new readers out of the default lock but not out of the reader-first lock; the lock reports being in use whenever some thread holds it or waits for it and not otherwise. Every request is granted once the holders release: no wake-up is lost.",
     ["schedules", "histories"], "any number of threads and any schedule of acquire, release and upgrade",
     "No test looks at preference, at the in-use report or at lost wake-ups, which need particular interleavings.",
     [CM + "reader-writer-lock.h", CS + "reader-writer-lock.cc", CS + "reader-first-reader-writer-lock.cc"],
     [("pending upgrade flag and pending counters", CS + "reader-writer-lock.cc")],
     ["results of upgrades, the in-use report, which blocked threads get through"])
prop("C06", "Identifiers survive every conversion and compare, order and hash consistently",
     "A unique or hash id converted to its hexadecimal text, raw words or protocol message and back is the same id, and text that is not a valid id is refused without an exception, leaving nothing half parsed. Equality, ordering and hashing of ids are mutually consistent: equal ids hash equally and the order is a strict total order that agrees with equality; ids that differ in either half hardly ever share a hash.",
     ["inputs"], "all ids and all strings",
     "The tests convert a few random ids and one malformed string.",
     [CM + "hash-id.h", CM + "unique-id.h", CS + "hash-id.cc", CS + "internal/unique-id.cc", CM + "internal/unique-id.h"],
     [("hex conversion and validation", CM + "hash-id.h"), ("message serialization", CM + "unique-id.h")],
     ["text, words, messages, comparison and hash results"])
prop("C07", "Generated identifiers are valid and never collide",
     "Ids generated by any number of threads at once, including in a burst right after start and in separate processes, are valid and pairwise distinct, and a default-constructed or invalidated id is never valid.",
     ["schedules", "histories"], "any number of generating threads and processes",
     "The test generates a few ids on one thread.",
     [CM + "hash-id.h", CS + "hash-id.cc", CM + "unique-id.h", CS + "internal/unique-id.cc"],
     [("random generation of two 64-bit words", CS + "hash-id.cc")],
     ["sets of generated ids"])
prop("C08", "Channel values survive serialization unchanged",
     "Serializing a channel value of any supported type (integers, floating point, Eigen matrices of any shape, vectors of them, contiguous images of any type) to text or to a buffer and reading it back yields an equal value of the same shape and type, and reports success. The buffer form reports exactly the number of bytes it uses.",
     ["inputs"], "all values of all supported types, including empty, extreme and non-finite ones",
     "The tests serialize one small value per type, and are not built here.",
     [CM + "channel-serialization.h", CS + "channel-serialization.cc", CM + "channel.h"],
     [("fixed header plus raw data encodings", CM + "channel-serialization.h")],
     ["decoded values, return codes, sizes"])
prop("C09", "Decoding channel data never touches memory outside the given buffer",
     "Reading a channel value from an arbitrary, truncated or corrupted buffer or string either fails cleanly or yields a value; it never reads outside the buffer, writes outside the value, or allocates memory out of proportion to what was supplied.",
     ["inputs", "fault_sequences"], "all byte strings and lengths, in particular valid encodings truncated or with damaged headers",
     "The tests only decode what they just encoded.",
     [CM + "channel-serialization.h", CS + "channel-serialization.cc"],
     [("header parsing and length checks", CM + "channel-serialization.h")],
     ["memory-error detector, return codes, resulting sizes"])
prop("C10", "A channel group is a consistent typed map, also under concurrent use",
     "Adding, querying, fetching and removing channels by name behaves as a map from names to typed values; a clone holds equal but independent values; two groups compare equal exactly if they have the same names with equal values. Using, cloning and comparing groups from several threads is free of data races and deadlocks.",
     ["histories", "schedules"], "all sequences of operations on groups, including concurrent ones",
     "One test adds a few channels on one thread, and it is not built here.",
     [CM + "channel.h", CS + "channel.cc", CM + "channel-declaration.h", CM + "channel-definitions.h", CM + "channel-external-declaration.h"],
     [("name to channel map with a mutex per group", CM + "channel.h")],
     ["results of the map operations compared with a reference map", "race and lock-order detector"])
prop("C11", "Matrices and files survive YAML, and malformed YAML is refused",
     "A dense matrix or vector of any shape written to YAML and read back has the same shape and bit-identical entries, and an object saved to a file loads equal. Malformed, mis-shaped or missing YAML is refused without corrupting memory or the target's invariants.",
     ["inputs"], "all matrix shapes and values, all YAML documents",
     "The tests use a few fixed matrices and are not built here.",
     [CM + "yaml-serialization-eigen.h", CM + "yaml-serialization.h", CM + "yaml-file-serialization.h"],
     [("row-wise encoding with full precision, size checks on decoding", CM + "yaml-serialization-eigen.h")],
     ["decoded values, decode return code, exceptions"])
prop("C12", "A sensor's identity and settings survive YAML",
     "A sensor serialized to YAML and read back has the same id, topic and description and compares equal; an invalid id, a node that is not a map or a refusal by the sensor's own part is reported as failure, and a missing id gives a fresh valid one. Two sensors compare equal exactly if their type and these settings agree.",
     ["inputs"], "all ids and strings, all YAML documents",
     "Sensors have no test of their own.",
     [CM + "sensor.h", CS + "sensor.cc"],
     [("deserialize/serialize and equality", CS + "sensor.cc")],
     ["deserialized fields, return codes, equality"])
prop("C13", "Container helpers agree with their plain definitions",
     "Removing a set of indices from a container or matrix keeps exactly the other elements in order; drawing samples without repetition returns the requested number of distinct elements of the input; medians, means, deviations, counting, keep-best, conversion and shared-pointer comparison helpers return what their definitions say, for every input including empty ones.",
     ["inputs"], "all containers, index sets (sorted or not, repeated or not) and sizes, including empty ones",
     "The tests use one small vector per helper.",
     [CM + "stl-helpers.h", CM + "stl-helpers-inl.h", CM + "predicates.h"],
     [("index erasure with sorted copies, sampling with set of drawn indices", CM + "stl-helpers-inl.h")],
     ["returned containers compared with naive models"])
prop("C14", "Descriptor distances and bit helpers are exact for every size and alignment",
     "The Hamming distance between two binary descriptors equals the number of differing bits, whichever implementation computes it, for every length and alignment and without reading beyond the descriptors. Bit flipping, counting, comparison, mean and noise helpers on descriptors change or report exactly the bits they name.",
     ["inputs"], "all descriptor contents, byte lengths and alignments",
     "The tests use fixed 64-byte aligned descriptors and mostly single bits.",
     [CM + "hamming.h", CM + "hamming-inl.h", CM + "descriptor-utils.h"],
     [("SSE/NEON popcount and scalar fallback", CM + "hamming-inl.h")],
     ["distances compared with a bitwise model", "memory-error detector"])
prop("C15", "Descriptor references never leak, double free or dangle",
     "A descriptor reference reads and writes exactly the bytes it refers to; one that owns its memory frees it exactly once whatever sequence of copies, moves, assignments and self-assignments happens, and a non-owning one never frees. Comparison agrees with comparing the bytes.",
     ["histories", "inputs"], "all sequences of construction, copy, move, assignment and destruction over any lengths",
     "There is no test of descriptor references.",
     [CM + "feature-descriptor-ref.h", CM + "feature-descriptor-ref-inl.h"],
     [("ownership flag, move and copy operations", CM + "feature-descriptor-ref-inl.h")],
     ["memory-error detector, live allocation counts, contents against a shadow model"])
prop("C16", "The occupancy grid bookkeeps points exactly",
     "Every point added inside the grid's area is found in the cell that contains it, coordinates outside are refused, and counts agree with the stored points. Adding conditionally, replacing the weakest or removing from the fullest cells keeps exactly the points their contract says; no point is lost, duplicated or misplaced.",
     ["histories", "inputs"], "all grid geometries, point coordinates including cell borders, and operation sequences",
     "The tests use one grid with a few points, and are not built here.",
     [CM + "occupancy-grid.h", CM + "occupancy-grid-inl.h"],
     [("cell index computation and per-cell point lists", CM + "occupancy-grid-inl.h")],
     ["all cells compared with a reference model after every operation"])
prop("C17", "Statistics and timers report what was recorded",
     "Sample count, total, mean, minimum, maximum and rolling figures of an accumulator or timer agree with the samples recorded under that name. Handles, names and samples may be used from several threads at once without losing samples, data races or deadlocks, and printing at the same time is safe.",
     ["inputs", "schedules", "histories"], "all sample sequences, tag names and concurrent uses",
     "There are no tests of statistics or timers.",
     [CM + "statistics/accumulator.h", CM + "statistics/statistics.h", CS + "statistics.cc", CM + "timer.h", CS + "timer.cc"],
     [("windowed accumulator", CM + "statistics/accumulator.h"), ("tag map under a mutex", CS + "statistics.cc")],
     ["reported figures against a reference accumulator", "race detector"])
prop("C18", "Time conversions are exact",
     "Converting between nanoseconds and seconds, milliseconds or microseconds preserves the value as far as the types allow, and the textual form of any nanosecond time denotes exactly that time, negative times included.",
     ["inputs"], "all representable times",
     "The tests convert a few values.",
     [CM + "time.h"], [("conversion constants and text formatting", CM + "time.h")],
     ["converted values and parsed-back text"])
prop("C19", "Approximate comparison of images is sound",
     "Comparing two images for equality within a tolerance answers true exactly if shape and type agree and every entry of every channel is finite and differs by at most the tolerance, without touching memory outside the images, for every type, channel count and memory layout.",
     ["inputs"], "all image types, channel counts, sizes, strides and tolerances",
     "There are no tests of the image comparison.",
     [CM + "opencv-predicates.h", CM + "predicates.h"],
     [("per-type element loops", CM + "opencv-predicates.h")],
     ["answers compared with an element-wise model", "memory-error detector"])
prop("C20", "Undistortion inverts distortion",
     "For every lens distortion model and every valid parameter set, undistorting a distorted point returns the original point over the model's working range, and the in-place, copying, external-parameter and static forms agree with each other and with the published model formula.",
     ["inputs"], "all distortion models, valid parameters and points in the working range, including the image centre",
     "The tests of the cameras package are not built here and sample a few points of fixed parameters.",
     ["aslam_cv_cameras/include/aslam/cameras/distortion.h", "aslam_cv_cameras/src/distortion.cc", "aslam_cv_cameras/src/distortion-radtan.cc", "aslam_cv_cameras/src/distortion-fisheye.cc", "aslam_cv_cameras/src/distortion-equidistant.cc", "aslam_cv_cameras/include/aslam/cameras/distortion-null.h"],
     [("closed-form distortion, iterative or closed-form inversion", "aslam_cv_cameras/src/distortion-radtan.cc")],
     ["points before and after, compared with an independent formula"])
prop("C21", "Distortion Jacobians are the derivatives of the distortion",
     "The derivatives a distortion model reports, with respect to the point and to its parameters, equal the derivatives of the function it computes, everywhere in its working range including at and near the image centre.",
     ["inputs"], "all models, valid parameters and points",
     "The tests of the cameras package are not built here and use a few random points.",
     ["aslam_cv_cameras/src/distortion-radtan.cc", "aslam_cv_cameras/src/distortion-fisheye.cc", "aslam_cv_cameras/src/distortion-equidistant.cc", "aslam_cv_cameras/include/aslam/cameras/distortion-null.h"],
     [("hand-derived Jacobian expressions", "aslam_cv_cameras/src/distortion-radtan.cc")],
     ["reported Jacobians compared with high-order numerical differentiation"])
prop("C22", "Distortion models guard and carry their parameters faithfully",
     "A distortion model accepts exactly the parameter vectors of its own size and range, applies operations with foreign parameters without changing its own, and its copies are equal and independent. Equality, validity and type reports agree with the parameters it holds.",
     ["inputs", "histories"], "all parameter vectors and sequences of operations",
     "The tests of the cameras package are not built here.",
     ["aslam_cv_cameras/include/aslam/cameras/distortion.h", "aslam_cv_cameras/src/distortion.cc", "aslam_cv_cameras/src/distortion-radtan.cc", "aslam_cv_cameras/src/distortion-fisheye.cc", "aslam_cv_cameras/src/distortion-equidistant.cc"],
     [("parameter checks, clone and equality", "aslam_cv_cameras/src/distortion.cc")],
     ["results and side effects of the parameter operations"])
prop("C23", "Line segment detection is safe, repeatable and finds what is there",
     "Detecting line segments in any grey image is free of memory errors, gives the same segments when repeated on the same or a fresh detector, and returns only segments whose ends lie in the image (up to the width of their region) and that are at least as long as asked for. The segments, widths, precisions and false alarm figures are those of the published method (growing of regions of aligned gradients, rectangle fit, refinement, a-contrario validation). High-contrast straight edges of sufficient length are reported at their true position, and content moved within an evenly lit picture is reported at its new place.",
     ["inputs", "configurations"], "all grey images and detector settings",
     "The detector has no test.",
     ["aslam_cv_detector/src/line-segment-detector.cc", "aslam_cv_detector/src/lsd/lsd-opencv.cc", "aslam_cv_detector/include/lsd/lsd-opencv.h", "aslam_cv_detector/include/aslam/detectors/line-segment-detector.h"],
     [("region growing with rectangle validation", "aslam_cv_detector/src/lsd/lsd-opencv.cc")],
     ["segments, memory-error detector, comparison with known edges and with the reference implementation in OpenCV"])
prop("C24", "Segment filters and comparisons select exactly what they name",
     "Filtering segments by length or angle keeps exactly the segments in the named range, in order and unchanged; the intersection test agrees with exact geometry; comparing two segment sets counts the pixels that differ; drawing stays inside the image.",
     ["inputs"], "all segment sets, ranges and image sizes",
     "These functions have no test.",
     ["aslam_cv_detector/src/lsd/lsd-opencv.cc", "aslam_cv_detector/include/lsd/lsd-opencv.h", "aslam_cv_detector/include/aslam/detectors/line.h"],
     [("length and angle predicates", "aslam_cv_detector/src/lsd/lsd-opencv.cc")],
     ["outputs compared with naive models"])
prop("C25", "Nonlinear diffusion follows its schedule and conserves the image",
     "A diffusion time is split into positive steps that add up to it, in an order that is a permutation of the computed steps. A diffusion step with admissible step size matches the discrete diffusion equation, preserves the image's total and never leaves its value range; conductivities and image derivatives follow their published formulas.",
     ["inputs"], "all images, diffusion times, step counts and conductivity functions",
     "The KAZE code has no test.",
     ["aslam_cv_detector/src/kaze/fed.cpp", "aslam_cv_detector/src/kaze/nldiffusion_functions.cpp", "aslam_cv_detector/include/kaze/fed.h", "aslam_cv_detector/include/kaze/nldiffusion_functions.h"],
     [("fast explicit diffusion step computation", "aslam_cv_detector/src/kaze/fed.cpp"), ("explicit diffusion step", "aslam_cv_detector/src/kaze/nldiffusion_functions.cpp")],
     ["step vectors and diffused images compared with reference computations"])
prop("C26", "KAZE features are well formed, repeatable and free of memory errors",
     "Every feature KAZE reports lies inside the image with a response above the threshold, and gets exactly one finite unit-length descriptor of the configured length, for every descriptor type and diffusion setting. Repeating the extraction, on the same or a fresh extractor and into used or fresh lists, gives identical results. The features are the local maxima of the Hessian determinant over place and scale, refined within their pixel, so a round spot is found at its centre whatever its contrast; descriptors are the normalised derivative sums around the feature along its dominant direction. No image or setting causes memory errors or undefined behaviour; images of another type or size than configured are refused.",
     ["inputs", "configurations"], "all images and option combinations",
     "The KAZE code has no test.",
     ["aslam_cv_detector/src/kaze/KAZE.cpp", "aslam_cv_detector/include/kaze/KAZE.h", "aslam_cv_detector/include/kaze/KAZEConfig.h"],
     [("scale space, extremum search, descriptor computation", "aslam_cv_detector/src/kaze/KAZE.cpp")],
     ["keypoints and descriptors; memory-error detector"])
prop("C27", "KAZE image and matching utilities agree with their definitions",
     "Image statistics and conversions return the true extremes and a rescaling to the stated range; ratio matching returns exactly the pairs whose best match beats the second best by the stated ratio; the inlier selection keeps exactly the matches that agree with the given homography within the tolerance; the composite picture shows both images side by side with a line per match, features and figures are drawn where and as given, and files read and write back the figures given. None of them reads or writes outside the given data.",
     ["inputs"], "all images, descriptor sets, homographies and tolerances",
     "These utilities have no test.",
     ["aslam_cv_detector/src/kaze/utils.cpp", "aslam_cv_detector/include/kaze/utils.h"],
     [("linear scans", "aslam_cv_detector/src/kaze/utils.cpp")],
     ["outputs compared with naive models"])
prop("C28", "Calibration targets and observations index their corners consistently",
     "Each target point is reported under one id with one position that agrees between all ways of asking for it, and an observation returns, for each corner id it holds, the image point and target point of that corner. Ids, rows, columns and counts are mutually consistent for every target size.",
     ["inputs"], "all target geometries and subsets of observed corners",
     "The calibration package is not built with tests here.",
     ["aslam_cv_calibration/include/aslam/calibration/target-base.h", "aslam_cv_calibration/src/target-base.cc", "aslam_cv_calibration/include/aslam/calibration/target-observation.h"],
     [("corner id to grid position mapping", "aslam_cv_calibration/src/target-base.cc")],
     ["points and ids compared with a reference grid"])
prop("C29", "Fixed-point undistortion maps match the floating-point maps",
     "Converting an undistortion map between floating point and fixed point, in any supported pair of types and in the inverse direction, changes each coordinate by at most the fixed-point resolution, handles every size and layout, and refuses unsupported combinations.",
     ["inputs"], "all map sizes, layouts, type pairs and coordinates",
     "The conversion is compiled here but has no running test.",
     ["aslam_cv_pipeline/src/test/convert-maps-legacy.cc", "aslam_cv_pipeline/include/aslam/pipeline/test/convert-maps-legacy.h"],
     [("per-pixel conversion loops", "aslam_cv_pipeline/src/test/convert-maps-legacy.cc")],
     ["converted maps compared with a reference conversion; memory-error detector"])
prop("C30", "Hashing, cloning and allocation helpers respect their contracts",
     "Equal integer matrices hash equally, so that hash containers keyed by them behave as maps; a polymorphic clone is a distinct, equal object of the same dynamic type; containers, shared and unique objects made by the aligned helpers meet the alignment of their Eigen element type, also after growth, and each is constructed, destroyed and released exactly once, also when its constructor throws.",
     ["inputs", "histories"], "all matrices, class hierarchies and container histories",
     "These helpers have no test.",
     [CM + "eigen-hash.h", CM + "crtp-clone.h", CM + "memory.h"],
     [("hash combination, static-cast clone, aligned allocator", CM + "memory.h")],
     ["hash containers against ordered maps; addresses modulo alignment; types and values of clones"])
CAM = "aslam_cv_cameras/"
prop("C31", "Projection and back-projection are inverse, with true derivatives",
     "For every camera model, projecting a back-projected image point returns the point, back-projecting the projection of a visible 3D point returns its direction, and the derivatives with respect to point, intrinsics and distortion equal those of the projection. Vectorised and single-point forms agree.",
     ["inputs"], "all camera models, valid intrinsics and distortions, all points in view",
     "The tests of the cameras package are not built here.",
     [CAM + "src/camera-pinhole.cc", CAM + "src/camera-unified-projection.cc", CAM + "src/camera.cc", CAM + "include/aslam/cameras/camera.h"],
     [("closed-form projection and Jacobians", CAM + "src/camera-pinhole.cc")],
     ["projected points, rays, Jacobians"])
prop("C32", "A projection's verdict and visibility agree with geometry and mask",
     "A projection is reported visible exactly if the point is in front of the camera (or in the model's domain) and lands inside the image; otherwise the report names why. A point is visible or masked consistently with the image size and the mask. Rolling-shutter delays follow the lines of the camera's scan direction.",
     ["inputs"], "all cameras, points and masks",
     "The tests of the cameras package are not built here.",
     [CAM + "src/camera.cc", CAM + "include/aslam/cameras/camera.h", CAM + "include/aslam/cameras/camera-inl.h"],
     [("projection result evaluation", CAM + "src/camera-pinhole.cc")],
     ["projection results and visibility answers"])
prop("C33", "Cameras and rigs survive YAML and cloning, and rigs keep their index",
     "A camera or camera rig written to YAML and read back, or cloned, is equal to the original; changing a clone does not change the original. In a rig every camera is found under its id at its index with its extrinsics, also after cloning without distortion.",
     ["inputs", "histories"], "all cameras and rigs",
     "The tests of the cameras package are not built here.",
     [CAM + "src/ncamera.cc", CAM + "src/camera-factory.cc", CAM + "src/camera.cc"],
     [("YAML conversion and id to index map", CAM + "src/ncamera.cc")],
     ["deserialized and cloned objects, lookups"])
PI = "aslam_cv_pipeline/"
prop("C34", "Undistorted images show what their output camera sees",
     "An undistorter's maps send every output pixel to where the input camera projects that pixel's ray of the (distortion free) output camera, and to outside the input image when the ray does not project. The undistorted image has the output camera's size and samples the input image there with the chosen interpolation, black outside. The output camera scales between showing only the valid part of the input (alpha 0) and all of it (alpha 1); invalid settings, maps and images of wrong sizes are refused.",
     ["inputs", "configurations"], "all input cameras, alphas, scales and images",
     "The tests of the pipeline package are not built here.",
     [PI + "src/undistorter.cc", PI + "src/undistorter-mapped.cc", CM + "undistort-helpers.h"],
     [("map construction", CM + "undistort-helpers.h")],
     ["point mappings and sampled images"])
FR = "aslam_cv_frames/"
prop("C35", "A visual frame's keypoint channels stay aligned",
     "All per-keypoint data of a frame (measurements, uncertainties, orientations, scales, scores, descriptors, track ids, and typed blocks added later) keep one entry per keypoint in the same order through setting, extending and discarding, and copies compare equal. Accessors return what was stored under that index, and indices out of range are refused.",
     ["histories", "inputs"], "all sequences of channel operations on a frame, cameras and indices",
     "The tests of the frames package are not built here.",
     [FR + "src/visual-frame.cc", FR + "include/aslam/frames/visual-frame.h"],
     [("channel group and keypoint blocks", FR + "src/visual-frame.cc")],
     ["channel contents against a reference model"])
prop("C36", "A synchronized frame set reports its frames and time span truthfully",
     "Frames stored in a frame set are returned under their camera index, the set's earliest and latest times and id lookups agree with its frames, and copies compare equal. A feature track lists its observations in order, each resolving to the keypoint it names, and reports the extent of their bounding box.",
     ["histories"], "all rigs, subsets of frames set and timestamps",
     "The tests of the frames package are not built here.",
     [FR + "src/visual-nframe.cc", FR + "include/aslam/frames/visual-nframe.h", FR + "include/aslam/frames/feature-track.h",
      FR + "include/aslam/frames/keypoint-identifier.h"],
     [("frame vector indexed by camera", FR + "src/visual-nframe.cc")],
     ["accessor results against a reference model"])
prop("C37", "Track ids are unique and carried along matches",
     "Applying one-to-one matches to two frames gives matched keypoints the same track id, keeps or copies an existing id, leaves all other ids alone, and gives new tracks ids not given out since the last reset, also when several threads start tracks. Matches with indices out of range, used twice, or joining two different tracks are refused.",
     ["histories", "schedules"], "all sequences of frames and one-to-one match sets",
     "The tests of the tracker package are not built here.",
     ["aslam_cv_tracker/src/track-manager.cc", "aslam_cv_tracker/include/aslam/tracker/track-manager.h"],
     [("track id provider and assignment", "aslam_cv_tracker/src/track-manager.cc")],
     ["track ids of consecutive frames"])
MA = "aslam_cv_matcher/"
prop("C38", "Predicted keypoints and match bearings follow the geometry of the frames",
     "Predicting keypoints under a rotation yields, for each keypoint, the projection of its rotated viewing ray with success exactly if that is visible, and otherwise the unchanged keypoint marked as failed. The viewing rays returned for a list of matches belong to the matched keypoints, in the order of the matches.",
     ["inputs"], "all frames, cameras, rotations and match lists",
     "The tests of the matcher package are not built here.",
     [MA + "src/match-helpers.cc", MA + "include/aslam/matcher/match-helpers.h"],
     [("vectorised back-projection, rotation, projection", MA + "src/match-helpers.cc")],
     ["predictions and rays compared with single-point projection"])
prop("C39", "Frame-to-frame matching finds rotated keypoints and only plausible pairs",
     "The gyro-aided matcher returns one-to-one index pairs that lie within its search window around the predicted position, within its descriptor distance limit and pass the ratio test, and it finds the true partners of keypoints inside the image moved by the given rotation when their descriptors are distinctive.",
     ["inputs"], "all frame pairs, rotations and descriptors",
     "The tests of the matcher package are not built here.",
     [MA + "src/gyro-two-frame-matcher.cc", MA + "src/match-helpers.cc"],
     [("row look-up table and descriptor gating", MA + "src/gyro-two-frame-matcher.cc")],
     ["returned matches against brute force"])
prop("C40", "Triangulation recovers the point or says that it cannot",
     "From rays of cameras with sufficient parallax the linear triangulators return the true point, or for noisy rays the point closest to all rays; the iterative one returns the true point when the cameras are about equally far from it. Degenerate geometry is reported as failure, and the order of the observations does not matter.",
     ["inputs"], "all camera constellations and points",
     "The tests of the triangulation package are not built here.",
     ["aslam_cv_triangulation/src/triangulation.cc"],
     [("linear and iterative least squares with rank checks", "aslam_cv_triangulation/src/triangulation.cc")],
     ["estimated points and status"])
prop("C41", "The image pipeline delivers each synchronized image set once, in order",
     "Images of several cameras pushed in any interleaving come out grouped by time, each at most once, with each frame at its camera's index; only complete groups are delivered, those waiting oldest first, and no complete group is lost unless the caller asked for it. Blocking calls return when data or room becomes available or on shutdown. Images of unknown cameras or of the wrong size are refused.",
     ["schedules", "histories", "inputs"], "all camera counts, timestamp jitters, drops, thread counts and schedules",
     "The tests of the pipeline package are not built here.",
     [PI + "src/visual-npipeline.cc", PI + "include/aslam/pipeline/visual-npipeline.h"],
     [("processing and completed maps under a mutex", PI + "src/visual-npipeline.cc")],
     ["delivered frame sets against what was pushed; race detector"])
prop("C42", "Covariance rotation is exact",
     "Rotating a 6x6 pose covariance into another frame equals the congruence with the block rotation and therefore keeps it symmetric with unchanged eigenvalues, and rotating back restores it.",
     ["inputs"], "all rotations and covariances",
     "The test is not built here.",
     [CM + "covariance-helpers.h", CS + "covariance-helpers.cc"],
     [("block rotation", CS + "covariance-helpers.cc")],
     ["rotated covariances"])
TR = "aslam_cv_tracker/"
prop("C43", "The gyro tracker appends only worthy features, and appends them correctly",
     "After matching, the tracker appends features of the previous frame that were not matched and are predicted inside the image: at most a set ratio of the detected ones, those detected and matched the longest first, then those tracked the shortest, at the place where optical flow finds them, with their scale, orientation, score and a fresh descriptor, no track id, and one match each. Existing features stay as they are. Features that do not fit the frame are refused.",
     ["histories", "inputs"], "all image sequences, rotations, settings and accepted matches",
     "The tests of the tracker package are not built here.",
     [TR + "src/feature-tracker-gyro.cc", TR + "src/tracking-helpers.cc"],
     [("status track lengths and candidate order", TR + "src/feature-tracker-gyro.cc"), ("extension of all channels", TR + "src/tracking-helpers.cc")],
     ["appended features and matches of every frame against a model of every feature's history"])
CB = "aslam_cv_calibration/"
prop("C44", "Initial focal lengths come from complete views and are right or refused",
     "Focal lengths are initialized from complete target views only, and success means finite positive ones with the principal point in the middle of the image. From noise-free views of a camera without distortion whose tilts determine them they are the true ones; from wide-angle views whose image radius is proportional to the angle the vanishing points give roughly the true one. Fitting a circle to points on it returns that circle, and intersections of circles lie on both.",
     ["inputs", "histories"], "all targets, cameras, poses, complete or incomplete, degenerate or not",
     "The only test is disabled, and sampled views do not contain the degenerate or incomplete ones.",
     [CB + "src/focallength-initializers.cc", CB + "include/aslam/calibration/helpers.h", CB + "include/aslam/calibration/internal/focallength-initializers-traits-inl.h"],
     [("linear equations of the absolute conic", CB + "src/focallength-initializers.cc"), ("circle fit and intersection", CB + "include/aslam/calibration/helpers.h")],
     ["returned intrinsics, centres, radii and intersections"])
prop("C45", "Numerical differentiation returns the derivative",
     "The forward, central and five-point schemes vary one input at a time by the asked-for relative step and return the Jacobian, exactly up to rounding for polynomials of degree 1, 2 and 4; a value that cannot be computed is reported as failure. The Jacobian test macro complains exactly if the given Jacobian is off by more than the tolerance or cannot be computed.",
     ["inputs"], "all functions of any dimensions, points and steps",
     "The tester is itself only used by tests and never tested.",
     [CM + "numdiff-jacobian-tester.h"],
     [("difference schemes", CM + "numdiff-jacobian-tester.h")],
     ["Jacobians, evaluated points and test verdicts"])
prop("C46", "Pictures of keypoints and matches mark exactly those",
     "Drawing a frame's keypoints of a descriptor type, or matches between two frames, returns the frame's image in colour with a mark at every such keypoint inside it, or a line between the matched places, and no other pixel changed; the frames stay as they are and matches out of range are refused.",
     ["inputs"], "all images, keypoints inside and outside of them, and matches",
     "There are no tests of the visualization package.",
     ["aslam_cv_visualization/src/basic-visualization.cc"],
     [("circles and lines drawn into a copy of the raw image", "aslam_cv_visualization/src/basic-visualization.cc")],
     ["every pixel of the pictures"])
prop("C47", "April grids and their detections index corners correctly",
     "The points of an april grid lie where tag size and spacing put them. Detected tags become an observation in which each corner id names the corner of that tag, at its refined position if that did not move too far; bad, foreign and border tags are left out, and too few or repeated tags give no observation. Configurations are read from files as written; missing, malformed or impossible ones are refused.",
     ["inputs", "configurations"], "all grid sizes, configuration files and lists of detections in any order",
     "The package is not built here, its detector needs a library that is not installed, and its test reads one image.",
     [CB + "src/target-aprilgrid.cc", CB + "include/aslam/calibration/target-aprilgrid.h"],
     [("tag filter and corner indices", CB + "src/target-aprilgrid.cc")],
     ["target points and observations of scripted detections"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for x in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + x):
                print("missing", p["id"], x)
