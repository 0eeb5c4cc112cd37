"""What each check builds and runs."""
COMMON = ["@common"]
CHECKS = {}
NOT_APPLICABLE = {}


def check(pid, harness, sources, configs, rule, **kw):
    CHECKS[pid] = dict(harness=harness if isinstance(harness, list) else [harness], sources=sources,
                       configs=configs, rule=rule, **kw)


POOL = ["aslam_cv_common/src/thread-pool.cc"]
HIST = ("random histories: concurrent producers, 1-8 workers, tasks of several groups and kinds (values, exceptions, "
        "nested enqueues), five ways of ending; plus gated schedules. A history is non-trivial when tasks actually "
        "overlapped (or a single worker was used); distinct by the observed start/end interleaving")
check("C01", "threadpool.cc", POOL, ["asan", "tsan"], HIST, parallel=False)
check("C02", "threadpool.cc", POOL, ["asan", "tsan"], HIST, parallel=False)
check("C03", "threadpool.cc", POOL, ["asan", "tsan"], HIST, parallel=False)
RW = ["aslam_cv_common/src/reader-writer-lock.cc", "aslam_cv_common/src/reader-first-reader-writer-lock.cc"]
check("C04", "rwlock.cc", RW, ["asan", "tsan"],
      "random mixes of reads, writes, upgrades and moved guards by 2-10 threads on both locks, plus schedules in which "
      "threads are observed blocked; non-trivial when readers overlapped, an upgrade lost, or a thread was seen blocked",
      parallel=False)
check("C05", "rwlock.cc", RW, ["asan", "tsan"],
      "as C04 plus schedules for preference, rival upgrades and hand-over with continuous polling of the in-use report; "
      "non-trivial when a thread was really observed blocked or an upgrade lost", parallel=False)
IDS = ["aslam_cv_common/src/hash-id.cc", "aslam_cv_common/src/internal/unique-id.cc"]
check("C06", "ids.cc", IDS, ["asan"],
      "ids with boundary and random words through every conversion, ordered triples with near-equal words, malformed "
      "texts of seven kinds; non-trivial: valid ids, really malformed texts; distinct by id or text")
check("C07", "ids.cc", IDS, ["asan", "tsan"],
      "ids generated at once by 2-16 threads that start together, by 24 fresh processes, and invalidated ids; distinct by "
      "the ids generated", parallel=False)
CHANNELS = ["aslam_cv_common/src/channel.cc", "aslam_cv_common/src/channel-serialization.cc"]
check("C08", "channels.cc", CHANNELS, ["asan"],
      "values of 30 types (11 scalars, 14 Eigen shapes, 4 vectors of matrices, images of 7 depths and up to 512 channels) "
      "with boundary entries and empty shapes through text and buffer, decoded over a value of another shape; image views; "
      "the 12 declared channels; distinct by encoded bytes")
check("C09", "channels.cc", CHANNELS, ["asan"],
      "valid encodings mutated (truncation, header fields, counts, wrapped products, bit flips, extension), crafted header "
      "soup and hostile texts decoded from exactly sized heap blocks into 36 types under ASan with an allocation monitor; "
      "distinct by input bytes")
check("C10", "channels.cc", CHANNELS, ["asan", "tsan"],
      "random operation histories over up to six groups against a map model, clone/assign independence, and 2-8 threads "
      "adding, reading, cloning, assigning, printing and comparing three groups both ways; non-trivial when something was "
      "cloned or compared; distinct by history", parallel=False)
SENSOR = ["aslam_cv_common/src/sensor.cc"] + IDS
check("C11", "yaml.cc", SENSOR, ["asan"],
      "matrices of 17 types and random shapes with boundary entries through nodes, text and files; documents in every "
      "accepted layout and twelve kinds of misshapen ones against a shape model; garbled and missing files; distinct by text")
check("C12", "yaml.cc", SENSOR, ["asan"],
      "sensors with awkward topics and descriptions through node, text and file; pairs differing in exactly one setting; "
      "nine kinds of incomplete or malformed nodes; distinct by settings")
check("C13", "helpers.cc", [], ["asan"],
      "erasing index sets of seven shapes (none, all, ends, halves, alternating, random; unsorted where allowed) from 12 "
      "container and matrix types against a plain model, drawing, figures of lists, keep-best with ties and actions, "
      "conversions, shared equality; distinct by input")
check("C14", "descriptors.cc", [], ["asan"],
      "byte strings of 0 to 9600 bytes at all alignments in blocks that end with the data, random and extreme patterns; bit "
      "positions in and out of range; means, medians and deviations of 0-40 descriptors against plain loops; distinct by bytes")
check("C15", "descriptors.cc", [], ["asan"],
      "histories of up to 60 operations over up to five references (owning, viewing, into each other's memory): copies, "
      "moves, assignments, set_data, Allocate, Release, writes, growth in a vector, against a model, with every block "
      "counted; non-trivial when something was assigned; distinct by operation history")
check("C16", "grid.cc", [], ["asan"],
      "histories of 5-70 operations (150 when thorough) on grids of four coordinate and weight types, sizes that divide evenly "
      "or not, points on cell borders and at the far edge, equal and lowest weights, against a list of points; masks "
      "compared pixel by pixel; refusals; non-trivial when a point was replaced or removed; distinct by history")
STATS = ["aslam_cv_common/src/statistics.cc", "aslam_cv_common/src/timer.cc"]
check("C17", "stats.cc", STATS, ["asan", "tsan"],
      "accumulators of nine types and windows against plain sums, histories over tags and handles of both registries with "
      "tables and YAML files read back, and 2-8 threads recording, creating tags, querying, printing and saving at once; "
      "distinct by samples and operations", parallel=False)
check("C18", "basics.cc", [], ["asan"],
      "nanosecond times (powers of ten and their neighbours, limits, random magnitudes, both signs) as text parsed back, "
      "to and from every unit against long double arithmetic, order, whole units, the clock; distinct by time")
check("C19", "basics.cc", [], ["asan"],
      "pairs of images of seven depths, 1 to 512 channels, with padded rows in blocks that end with the image, equal, changed "
      "in single entries about the tolerance, non-finite, of other shapes and types, and views; compared with plain loops")
DISTORTION = ["aslam_cv_cameras/src/distortion.cc", "aslam_cv_cameras/src/distortion-equidistant.cc",
              "aslam_cv_cameras/src/distortion-fisheye.cc", "aslam_cv_cameras/src/distortion-radtan.cc"]
check("C20", "distortion.cc", DISTORTION, ["asan"],
      "four models with typical, extreme and single-parameter sets; points over the disc where the model is safely invertible, "
      "on its rim, on the axes and at 19 radii around the special cases at the centre; distinct by model, parameters and point")
check("C21", "distortion.cc", DISTORTION, ["asan"],
      "as C20; analytic Jacobians against long double differences of the published formula, differences of the function "
      "itself and dual numbers through the templated form; distinct by model, parameters and point")
check("C22", "distortion.cc", DISTORTION, ["asan"],
      "parameter vectors of 0 to 8 entries at and beyond the limits through construction, setting, external use, cloning, "
      "comparison and printing; distinct by parameters")
LSD = ["aslam_cv_detector/src/line-segment-detector.cc", "aslam_cv_detector/src/lsd/lsd-opencv.cc"]
check("C23", "lsd.cc", LSD, ["asan"],
      "nine kinds of hostile images of 1x1 to 210x60 under random settings of all three refinements and nine scales, twice on "
      "one detector, on a fresh one and as a view; the method written down once more (lib/lsd_ref.h) and compared segment by segment; rendered half planes, rectangles and bars at any angle with known edges, moved content, several images on one detector; "
      "non-trivial when segments were found; distinct by image and setting")
check("C24", "lsd.cc", LSD, ["asan"],
      "segment lists with points, axis-parallel, whole-length, repeated and out-of-image segments passed as vectors and "
      "matrices, limits on and beside the values, exact integer geometry for intersections, pixel-wise models of drawing and "
      "comparison; distinct by input")
KAZE = ["aslam_cv_detector/src/kaze/%s.cpp" % n for n in ("KAZE", "fed", "nldiffusion_functions", "utils")]
check("C25", "kaze.cc", KAZE, ["asan"],
      "diffusion times at and around the edges of step counts, all step counts up to hundreds; explicit and semi-implicit "
      "steps over nine styles of images from 1 pixel up with random conductivities against the equation in double, the four "
      "conductivities, derivatives and blurs at many scales against plain loops; whole scale spaces followed level by level; distinct by result")
check("C26", "kaze.cc", KAZE, ["asan"],
      "twelve descriptors x four diffusivities x two schemes over nine styles of images of awkward shapes and random "
      "settings, repeated with the same lists, a used and a fresh extractor; responses, maxima, refinement, dominant directions "
      "and all twelve descriptors recomputed in double from the smoothed levels; lone spots at known places, darker and turned; "
      "images of the wrong size or type; non-trivial when features were found; distinct by descriptors")
check("C27", "kaze.cc", KAZE, ["asan"],
      "images in eight value ranges and as parts of larger ones, candidate lists of 0-4 entries, matches around the "
      "tolerance of random homographies, composites of differently sized images, files; distinct by result")
check("C28", "calibration.cc", ["aslam_cv_calibration/src/target-base.cc", "aslam_cv_pipeline/src/test/convert-maps-legacy.cc"], ["asan"],
      "targets of 1-40 rows and columns with marked points, observations of none, one, some and all corners in any order, "
      "every id and index asked for and the ones just outside; distinct by ids and points")
check("C29", "calibration.cc", ["aslam_cv_calibration/src/target-base.cc", "aslam_cv_pipeline/src/test/convert-maps-legacy.cc"], ["asan"],
      "maps of up to 12x40 in all supported pairs of types, given in both orders, of their own or as parts of larger ones, "
      "into fresh and used outputs, with coordinates halfway between fixed-point values and up to the ends of the range; "
      "ten input and nine output types for the refusals; distinct by result")
check("C30", "memory.cc", [], ["asan"],
      "histories of hash containers keyed by nine matrix types with few distinct entries, clones of three classes over "
      "generations, growing containers of six Eigen types with 64-byte alignment, owners incl. throwing constructors and "
      "second bases; distinct by contents")
CAM = SENSOR + ["aslam_cv_cameras/src/%s.cc" % n for n in (
    "camera", "camera-pinhole", "camera-unified-projection", "camera-3d-lidar", "camera-factory", "ncamera",
    "random-camera-generator", "distortion", "distortion-equidistant", "distortion-fisheye", "distortion-radtan")]
check("C31", "cameras.cc", CAM, ["asan"],
      "random pinhole, unified and lidar cameras with four distortions and sizes from 8 to 2000 pixels, views inside the "
      "models' domains at distances of 0.1-10000, derivatives by point, intrinsics and distortion against the published "
      "formulas in long double, external parameters, lists; distinct by camera and point")
check("C32", "cameras.cc", CAM, ["asan"],
      "points in front, behind, on the planes, huge, tiny and not finite, views just inside and outside the image, masks as "
      "parts of larger images, keypoints on and beside the borders in three number types, scan delays; distinct by case")
check("C33", "cameras.cc", CAM, ["asan"],
      "cameras with awkward topics through node, text, file and clone, changed clones, nine kinds of damaged nodes; rigs of "
      "1-5 cameras cloned in five ways, read into used rigs, cameras replaced; distinct by text")
FRAMES = CAM + CHANNELS + ["aslam_cv_frames/src/visual-frame.cc", "aslam_cv_frames/src/visual-nframe.cc"]
check("C35", "frames.cc", FRAMES, ["asan"],
      "histories of setting, swapping, extending with several descriptor types, replacing blocks, discarding, changing, "
      "clearing, serializing and copying frames against a column model with every accessor compared after every step; "
      "indices beyond the end up to 2^64-1; raw coordinates and rays through pairs of random cameras; non-trivial when "
      "something was really discarded or copied; distinct by history")
check("C36", "frames.cc", FRAMES, ["asan"],
      "histories of setting and unsetting frames, changing rigs and copying sets made in three ways, incomplete sets "
      "included, with all accessors compared after every step; tracks of 0-7 observations, also at negative coordinates; "
      "non-trivial when copied; distinct by history")
check("C40", "triangulation.cc", FRAMES + ["aslam_cv_triangulation/src/triangulation.cc"], ["asan"],
      "2-60 views by 1-4 cameras with at least 5 degrees of parallax, in two orders, noisy rays against the point closest to "
      "them in long double, five kinds of degenerate constellations, measurements up to 1e9, tracks through random cameras; "
      "non-trivial with parallax; distinct by point")
check("C42", "covariance.cc", ["aslam_cv_common/src/covariance-helpers.cc"], ["asan"],
      "random, special and tiny rotations of matrices of rank 0-6 and sizes over seven decades against the congruence written "
      "out in long double; non-trivial when not zero; distinct by result")
MATCHER = FRAMES + STATS + ["aslam_cv_matcher/src/gyro-two-frame-matcher.cc", "aslam_cv_matcher/src/match-helpers.cc"]
check("C38", "matcher.cc", MATCHER, ["asan"],
      "frames of 0-12 keypoints inside and outside the image through random cameras and rotations (none, tiny, any) with up "
      "to three descriptor types, against single-point projection and the published models; rays of random match lists; "
      "non-trivial when something moved; distinct by keypoints")
check("C39", "matcher.cc", MATCHER, ["asan"],
      "frame pairs of 0-60 keypoints, crowded or sparse, at the borders, with similar descriptors of 4-64 bytes, against the "
      "choice every keypoint makes alone and who may win it; non-trivial when something matched; distinct by pair")
TRACKER = MATCHER + ["aslam_cv_tracker/src/%s.cc" % n for n in ("track-manager", "tracking-helpers", "feature-tracker-gyro")]
check("C37", "tracker.cc", TRACKER, ["asan", "tsan"],
      "histories of matches between 2-6 frames with and without ids, negative and large ids included, by several managers; "
      "matches out of range, repeated or contradicting; 2-6 threads starting tracks in frames of their own; distinct by ids")
check("C43", "tracker.cc", TRACKER, ["asan"],
      "features inserted into frames and appended 0-3 times; sequences of 3-8 images of a random scene by a turning camera "
      "with features that are detected or not and matches that are kept or not, against every candidate's own rank and "
      "optical flow; non-trivial when something was appended; distinct by matches")
PIPELINE = FRAMES + POOL + ["aslam_cv_pipeline/src/%s.cc" % n for n in (
    "undistorter", "undistorter-mapped", "visual-npipeline", "visual-pipeline", "visual-pipeline-null")]
check("C41", "pipeline.cc", PIPELINE, ["asan", "tsan"],
      "image streams of 1-4 cameras with jitter, losses, repeats and local disorder through one worker against a model after "
      "every step; 1-6 workers with producers at most one round apart and 0-2 consumers; waiting calls with data, room and "
      "shutdowns, also at the moment they start to wait; non-trivial when sets were delivered; distinct by stream",
      parallel=False)
check("C34", "undistorter.cc", CAM + ["aslam_cv_pipeline/src/%s.cc" % n for n in ("undistorter", "undistorter-mapped")], ["asan"],
      "undistorters of pinhole and unified cameras with four distortions, alphas of 0, 1 and between, scales of 0.1-2, five "
      "interpolations and four image types against rays in long double and samples of the input; maps between any two "
      "cameras in three formats, wide angles included; distinct by output camera")
check("C45", "numdiff.cc", [], ["asan"],
      "polynomials of 1-6 inputs and 1-5 outputs, of the degree each scheme differentiates exactly, at points with zeros and "
      "over five decades, steps from the default to 0.1, failing evaluations, every evaluated point recorded; the test macro "
      "with Jacobians inside and outside the tolerance; distinct by Jacobian")
check("C44", "focal.cc", CAM + ["aslam_cv_calibration/src/target-base.cc", "aslam_cv_calibration/src/focallength-initializers.cc"], ["asan"],
      "1-6 noise-free views of random grids by random cameras with and without incomplete views among them, in fresh and "
      "stale memory, wide-angle views, six kinds of degenerate views; circles through arcs, pairs of circles apart, inside, "
      "crossing, touching and identical; non-trivial when the views determine the focal lengths; distinct by camera")
check("C46", "draw.cc", FRAMES + ["aslam_cv_visualization/src/basic-visualization.cc"], ["asan"],
      "frames of 0-6 keypoints of the type among others, inside, at the corners and outside of images of 1x1 to 100x80 given "
      "as parts of larger ones, 0-3 matches, fresh and used pictures; every pixel compared; distinct by keypoints")
check("C47", "aprilgrid.cc", SENSOR + ["aslam_cv_calibration/src/target-base.cc", "aslam_cv_calibration/src/target-aprilgrid.cc"], ["asan"],
      "grids of 1-6 by 1-6 tags; configuration files with missing, misshapen and impossible entries; scripted detections "
      "(stand-in for the tag library) of bad, foreign, repeated and border tags in any order, with and without refinement on "
      "textured images; non-trivial when enough tags remained; distinct by detections")
