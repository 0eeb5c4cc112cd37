From c01c16ea3db4439be025c0e797337b3086d4c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 01/99] fix: make ThreadPool's stop flag atomic

stop() writes the flag without holding the task mutex while workers and
enqueueOrdered() read it: a data race.
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..2fb7d6b 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -24,6 +24,7 @@
 //
 //   3. This notice may not be removed or altered from any source
 //   distribution.
+#include <atomic>
 #include <condition_variable>
 #include <future>
 #include <functional>
@@ -114,7 +115,7 @@ class ThreadPool {
   // A counter of active threads
   unsigned active_threads_;
   // A signal to stop the threads.
-  volatile bool stop_;
+  std::atomic<bool> stop_;
 };
 
 // Add new work item to the pool.
-- 
2.43.0


From 08cc6067578e4ba0f663ed97fadfb2e57fcb45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 02/99] fix: do not lose ThreadPool wake-ups to
 waitForEmptyQueue()

enqueueOrdered() notified one thread on a condition variable that workers
share with waitForEmptyQueue(); the notification could be consumed by a
waiter, leaving an idle worker asleep with an eligible task queued (a
deadlock if the running task waits for the new one).
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index 2fb7d6b..75eeb58 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -154,7 +154,9 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
-  tasks_queue_change_.notify_one();
+  // The workers share this condition variable with waitForEmptyQueue(), so
+  // notifying a single thread could wake up a waiter instead of a worker.
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From 3b10bdac85da37aa72f753dcbb7560321e9681e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 03/99] fix: define ThreadPool::numQueuedTasks()

It was declared in the public interface but never defined, so any use of it
failed to link.
---
 aslam_cv_common/src/thread-pool.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aslam_cv_common/src/thread-pool.cc b/aslam_cv_common/src/thread-pool.cc
index 58c20f1..b03f53f 100644
--- a/aslam_cv_common/src/thread-pool.cc
+++ b/aslam_cv_common/src/thread-pool.cc
@@ -121,6 +121,15 @@ void ThreadPool::run() {
   }
 }
 
+size_t ThreadPool::numQueuedTasks() const {
+  std::unique_lock<std::mutex> lock(this->tasks_mutex_);
+  return numQueuedTasksImpl();
+}
+
+size_t ThreadPool::numQueuedTasksImpl() const {
+  return groupid_tasks_.size();
+}
+
 size_t ThreadPool::numActiveThreads() const {
   std::unique_lock<std::mutex> lock(this->tasks_mutex_);
   return active_threads_;
-- 
2.43.0


From b2d44eb0bd88b23425106d44ff296b3427e4e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 04/99] fix: count waiting threads of the reader-first lock as
 users

isInUse() promises to be true while threads wait for access, but
ReaderFirstReaderWriterMutex never counted its waiting readers and writers.
---
 aslam_cv_common/src/reader-first-reader-writer-lock.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/src/reader-first-reader-writer-lock.cc b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
index 559a284..b79d02b 100644
--- a/aslam_cv_common/src/reader-first-reader-writer-lock.cc
+++ b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
@@ -9,14 +9,17 @@ ReaderFirstReaderWriterMutex::~ReaderFirstReaderWriterMutex() {}
 
 void ReaderFirstReaderWriterMutex::acquireReadLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++pending_readers_;
   while (current_writer_) {
     cv_writer_finished_.wait(lock);
   }
+  --pending_readers_;
   ++num_readers_;
 }
 
 void ReaderFirstReaderWriterMutex::acquireWriteLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++num_pending_writers_;
   while (true) {
     while (num_readers_ > (pending_upgrade_ ? 1 : 0)) {
       cv_readers_.wait(lock);
@@ -29,6 +32,7 @@ void ReaderFirstReaderWriterMutex::acquireWriteLock() {
       }
     }
   }
+  --num_pending_writers_;
   current_writer_ = true;
 }
 
-- 
2.43.0


From 64313861bb7d8a583e8ef625ad3d8334a844514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 05/99] fix: let HashId::fromHexString() refuse text that is
 not hexadecimal

It threw std::invalid_argument on non-hexadecimal characters, after having
overwritten part of the id, and accepted blanks, signs and 0x prefixes.
---
 aslam_cv_common/include/aslam/common/hash-id.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/hash-id.h b/aslam_cv_common/include/aslam/common/hash-id.h
index 508548d..fdeb869 100644
--- a/aslam_cv_common/include/aslam/common/hash-id.h
+++ b/aslam_cv_common/include/aslam/common/hash-id.h
@@ -1,6 +1,7 @@
 #ifndef ASLAM_HASH_ID_H_
 #define ASLAM_HASH_ID_H_
 
+#include <cctype>
 #include <chrono>
 #include <cstring>
 #include <functional>
@@ -8,6 +9,7 @@
 #include <iostream>
 #include <random>
 #include <mutex>
+#include <string>
 
 namespace aslam {
 
@@ -84,6 +86,13 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    // Other characters that stoul() would skip, take as sign or prefix, or throw
+    // on make the string invalid.
+    for (const char character : hexString) {
+      if (!std::isxdigit(static_cast<unsigned char>(character))) {
+        return false;
+      }
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 9fdd179cb033a58288d15e29028798d52ccb1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 06/99] fix: do not lose digits or large values in
 text-serialized scalar channels

---
 .../aslam/common/channel-serialization.h      | 43 +++++++++++++++++--
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..aead819 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -1,9 +1,15 @@
 #ifndef ASLAM_CHANNEL_SERIALIZATION_H_
 #define ASLAM_CHANNEL_SERIALIZATION_H_
 
+#include <cerrno>
+#include <cmath>
 #include <cstdint>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
+#include <locale>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -303,10 +309,28 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
 bool serializeToBuffer(const cv::Mat& matrix,
                        char** buffer, size_t* size);
 
+template<typename Scalar>
+typename std::enable_if<!std::is_floating_point<Scalar>::value, std::string>::type
+scalarToString(const Scalar& value) {
+  return std::to_string(value);
+}
+
+template<typename Scalar>
+typename std::enable_if<std::is_floating_point<Scalar>::value, std::string>::type
+scalarToString(const Scalar& value) {
+  // Enough digits to get back the very same value; std::to_string() would only
+  // keep six decimals.
+  std::ostringstream stream;
+  stream.imbue(std::locale::classic());
+  stream.precision(std::numeric_limits<Scalar>::max_digits10);
+  stream << value;
+  return stream.str();
+}
+
 template<typename Scalar>
 bool serializeToString(const Scalar& value, std::string* string) {
   CHECK_NOTNULL(string);
-  std::string value_string = std::to_string(value);
+  std::string value_string = scalarToString(value);
   string->swap(value_string);
   return true;
 }
@@ -317,7 +341,10 @@ bool deSerializeFromString(const std::string& string,
                            typename std::enable_if<std::is_integral<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stoll(string));
+  // Unsigned values can exceed the range of signed integers.
+  (*value) = std::is_unsigned<Scalar>::value ?
+      static_cast<Scalar>(std::stoull(string)) :
+      static_cast<Scalar>(std::stoll(string));
   return true;
 }
 
@@ -328,7 +355,17 @@ bool deSerializeFromString(const std::string& string,
                              = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stod(string));
+  // Unlike std::stod() this does not refuse subnormal values.
+  errno = 0;
+  char* end = nullptr;
+  const double parsed_value = std::strtod(string.c_str(), &end);
+  if (end == string.c_str()) {
+    throw std::invalid_argument("Not a floating point value: " + string);
+  }
+  if (errno == ERANGE && std::isinf(parsed_value)) {
+    throw std::out_of_range("Floating point value out of range: " + string);
+  }
+  (*value) = static_cast<Scalar>(parsed_value);
   return true;
 }
 
-- 
2.43.0


From bb6a51211699f94102c16550c6f96237d8bf705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 07/99] fix: check announced sizes before decoding channel
 buffers

---
 .../aslam/common/channel-serialization.h      | 11 ++++++++
 aslam_cv_common/src/channel-serialization.cc  | 27 ++++++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index aead819..4ac9552 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -26,6 +26,9 @@ struct HeaderInformation {
   uint32_t depth;
   uint32_t channels; ///< Needed for opencv support
   size_t size() const;
+  /// Number of bytes of the described data, or the maximum of size_t if they are
+  /// too many to be described by size_t or by the signed sizes of matrices.
+  size_t dataSize(size_t scalar_size) const;
   bool serializeToBuffer(char* buffer, size_t offset) const;
   bool deSerializeFromBuffer(const char* const bufferIn, size_t offset);
 };
@@ -222,6 +225,8 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   }
   CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
   CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
+  CHECK_EQ(header.dataSize(sizeof(Scalar)), size - header.size())
+      << "The buffer does not hold a matrix of the announced size.";
 
   if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
     matrix->resize(header.rows, header.cols);
@@ -251,12 +256,16 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(matrices);
 
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
 
+  // Every matrix takes at least a header.
+  CHECK_LE(repeat, (size - offset) / HeaderInformation().size());
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
     HeaderInformation header;
+    CHECK_GE(size - offset, header.size());
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -273,6 +282,8 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
     CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
     CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
+    CHECK_LE(header.dataSize(sizeof(Scalar)), size - offset)
+        << "The buffer does not hold a matrix of the announced size.";
 
     if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
       (*matrices)[i].resize(header.rows, header.cols);
diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..039fbab 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include <glog/logging.h>
 #include <aslam/common/channel-serialization.h>
 
@@ -7,6 +9,23 @@ size_t HeaderInformation::size() const {
   return sizeof(rows) + sizeof(cols) + sizeof(depth) + sizeof(channels);
 }
 
+size_t HeaderInformation::dataSize(size_t scalar_size) const {
+  constexpr size_t kTooLarge = std::numeric_limits<size_t>::max();
+  constexpr uint32_t kMaxExtent = std::numeric_limits<int32_t>::max();
+  if (rows > kMaxExtent || cols > kMaxExtent || channels > kMaxExtent) {
+    return kTooLarge;
+  }
+  // The product of two extents fits size_t.
+  size_t num_bytes = static_cast<size_t>(rows) * cols;
+  for (const size_t factor : {static_cast<size_t>(channels), scalar_size}) {
+    if (factor != 0u && num_bytes > kTooLarge / factor) {
+      return kTooLarge;
+    }
+    num_bytes *= factor;
+  }
+  return num_bytes;
+}
+
 bool HeaderInformation::serializeToBuffer(char* buffer, size_t offset) const {
   CHECK_NOTNULL(buffer);
   buffer += offset;
@@ -101,9 +120,11 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
-  size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
-  size_t total_size = matrix_size + header.size();
-  CHECK_EQ(size, total_size);
+  CHECK_GE(header.channels, 1u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
+  CHECK_EQ(header.dataSize(sizeof(SCALAR)), size - header.size())
+      << "The buffer does not hold an image of the announced size.";
+  const size_t matrix_size = header.dataSize(sizeof(SCALAR));
   int type = CV_MAKETYPE(cv::DataType<SCALAR>::depth, header.channels);
   // http://docs.opencv.org/modules/core/doc/basic_structures.html#mat-create
   // Create should only allocate if necessary.
-- 
2.43.0


From c5b908589d4cf078f829aa23f64d5c5b2a9a38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 08/99] fix: lock both channel groups safely when comparing or
 assigning them

---
 aslam_cv_common/include/aslam/common/channel.h | 6 ++++++
 aslam_cv_common/src/channel.cc                 | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..b907d06 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -126,6 +126,12 @@ struct ChannelGroup {
     *this = other;
   }
   ChannelGroup& operator=(const ChannelGroup& other) {
+    if (this == &other) {
+      return *this;
+    }
+    std::lock(m_channels_, other.m_channels_);
+    std::lock_guard<std::mutex> lock(m_channels_, std::adopt_lock);
+    std::lock_guard<std::mutex> lock_other(other.m_channels_, std::adopt_lock);
     channels_ = other.channels_;
     return *this;
   }
diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..18d8c84 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -28,8 +28,10 @@ bool isChannelGroupEqual(const ChannelGroup& left_channels, const ChannelGroup&
   if (&left_channels == &right_channels) {
     return true;
   }
-  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_);
-  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_);
+  // Lock both groups without risking a deadlock with a comparison the other way round.
+  std::lock(left_channels.m_channels_, right_channels.m_channels_);
+  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_, std::adopt_lock);
+  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_, std::adopt_lock);
 
   if (left_channels.channels_.size() != right_channels.channels_.size()) {
     return false;
-- 
2.43.0


From e6f329bdd692ae090fba8317b1b4038fbb199d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 09/99] fix: compare channel values of different size, type or
 channel count

---
 .../include/aslam/common/channel.h            | 29 +++++++++++++++++--
 aslam_cv_common/src/channel.cc                | 10 ++++++-
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index b907d06..c98c954 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -15,9 +15,11 @@
 /// @}
 /// @}
 
+#include <algorithm>
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
@@ -44,6 +46,28 @@ template<typename ValueType>
 struct ChannelValueCloner :
     public ChannelValueClonerImpl<ValueType, typename is_cloneable<ValueType>::type> {};
 
+// Comparing matrices of different sizes is an error in Eigen; as channel values
+// they just differ.
+template<typename ValueType>
+bool areChannelValuesEqual(const ValueType& left, const ValueType& right) {
+  return left == right;
+}
+template<typename Scalar, int ROWS, int COLS>
+bool areChannelValuesEqual(const Eigen::Matrix<Scalar, ROWS, COLS>& left,
+                           const Eigen::Matrix<Scalar, ROWS, COLS>& right) {
+  return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+}
+template<typename Scalar, int ROWS, int COLS>
+bool areChannelValuesEqual(const std::vector<Eigen::Matrix<Scalar, ROWS, COLS>>& left,
+                           const std::vector<Eigen::Matrix<Scalar, ROWS, COLS>>& right) {
+  return left.size() == right.size() &&
+      std::equal(left.begin(), left.end(), right.begin(),
+                 [](const Eigen::Matrix<Scalar, ROWS, COLS>& left_matrix,
+                    const Eigen::Matrix<Scalar, ROWS, COLS>& right_matrix) {
+                   return areChannelValuesEqual(left_matrix, right_matrix);
+                 });
+}
+
 // Exception for cv::Mat - Images are only shallowcopied.
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
@@ -82,7 +106,8 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
   }
   void operator=(const Channel<TYPE>&) = delete;
   virtual bool compare(const ChannelBase& other) {
-    return *this == *CHECK_NOTNULL(dynamic_cast<const Channel<TYPE>*>(&other));
+    const Channel<TYPE>* other_channel = dynamic_cast<const Channel<TYPE>*>(&other);
+    return other_channel != nullptr && *this == *other_channel;
   }
   bool serializeToString(std::string* string) const {
     return aslam::internal::serializeToString(value_, string);
@@ -100,7 +125,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::areChannelValuesEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other == nullptr && value_ == nullptr) {
diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index 18d8c84..a60f610 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -9,7 +9,15 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  if (value_.size != other.value_.size || value_.type() != other.value_.type()) {
+    return false;
+  }
+  if (value_.empty()) {
+    return true;
+  }
+  // countNonZero() only takes single channel images.
+  const cv::Mat difference = (value_ != other.value_);
+  return cv::countNonZero(difference.reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From 35239ab06caec6442785150374110bfe0d88c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 10/99] fix: accept only one entry where a YAML matrix holds
 one column

---
 aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 8a015ab..2c9f201 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -61,7 +61,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         for (IndexType j = 0; j < cols; ++j) {
           CHECK(it != it_end);
           if (it->IsSequence()) {
-            CHECK(it->size() != 1u) << "Wrong dimension of Eigen-type matrix!";
+            CHECK(it->size() == 1u) << "Wrong dimension of Eigen-type matrix!";
             M(i, j) = it->begin()->as<Scalar>();
           } else {
             M(i, j) = it->as<Scalar>();
-- 
2.43.0


From a7e1b1519dafd52c1455af814bcd650342fa33d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 11/99] fix: check the announced size of a YAML matrix before
 allocating it

---
 .../aslam/common/yaml-serialization-eigen.h   | 38 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 2c9f201..a1d5957 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -39,6 +39,33 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
     return node;
   }
 
+  // Whether the data can fill a matrix of the given size; asked before the size
+  // is used to allocate the matrix.
+  template <typename IndexType>
+  static bool isDataOfSize(
+      const Node& node, const IndexType rows, const IndexType cols) {
+    if (!node.IsDefined() || !node.IsSequence()) {
+      LOG(ERROR) << "The matrix data is not a sequence.";
+      return false;
+    }
+    const IndexType size = static_cast<IndexType>(node.size());
+    bool is_of_size = false;
+    if (rows >= 0 && cols >= 0) {
+      if (rows == 0 || cols == 0) {
+        is_of_size = (size == 0);
+      } else {
+        const bool is_linear = (size % rows == 0) && (size / rows == cols);
+        const bool is_2d = (size == rows) && node[0].IsSequence() &&
+            static_cast<IndexType>(node[0].size()) == cols;
+        is_of_size = is_linear || is_2d;
+      }
+    }
+    LOG_IF(ERROR, !is_of_size)
+        << "The matrix data does not have the announced size (" << rows << ", "
+        << cols << ").";
+    return is_of_size;
+  }
+
   template <class Scalar, int A, int B, int C, int D, int E>
   static bool decodeEigenMatrixData(
       const Node& node, const int rows, const int cols,
@@ -49,7 +76,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
-    if (rows == 0 && cols == 0) {
+    if (rows == 0 || cols == 0) {
       return true;
     }
     YAML::const_iterator it = node.begin();
@@ -147,6 +174,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (!isDataOfSize(node["data"], rows, cols)) {
+      return false;
+    }
     M.resize(rows, Eigen::NoChange);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -172,6 +202,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
       return false;
     }
 
+    if (!isDataOfSize(node["data"], rows, cols)) {
+      return false;
+    }
     M.resize(Eigen::NoChange, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
@@ -192,6 +225,9 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
     IndexType rows = node["rows"].as<IndexType>();
     IndexType cols = node["cols"].as<IndexType>();
 
+    if (!isDataOfSize(node["data"], rows, cols)) {
+      return false;
+    }
     M.resize(rows, cols);
 
     return decodeEigenMatrixData(node["data"], rows, cols, M);
-- 
2.43.0


From 855dbb2ae5d96cc0889cc56a6923ab9969ac1627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 12/99] fix: write character-sized matrix entries to YAML as
 numbers

---
 .../include/aslam/common/yaml-serialization-eigen.h    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index a1d5957..d1437ab 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -11,6 +11,12 @@ namespace YAML {  // This has to be in the same namespace as the Emitter.
 // http://eigen.tuxfamily.org/dox-devel/TutorialMatrixClass.html
 template <class Scalar_, int A_, int B_, int C_, int D_, int E_>
 struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
+  // Entries that are stored as characters are numbers nevertheless.
+  template <typename Scalar>
+  static const Scalar& toEmittable(const Scalar& value) { return value; }
+  static int toEmittable(const signed char value) { return value; }
+  static int toEmittable(const unsigned char value) { return value; }
+
   template <class Scalar, int A, int B, int C, int D, int E>
   static Node encode(const Eigen::Matrix<Scalar, A, B, C, D, E>& M) {
     Node node;
@@ -27,13 +33,13 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         ith_row << YAML::Flow;
         ith_row << YAML::BeginSeq;
         for (IndexType j = 0; j < cols; ++j) {
-          ith_row << M(i, j);
+          ith_row << toEmittable(M(i, j));
         }
         ith_row << YAML::EndSeq;
         CHECK(ith_row.good()) << "Emitter error: " << ith_row.GetLastError();
         node["data"].push_back(YAML::Load(ith_row.c_str()));
       } else {
-        node["data"].push_back(M(i, 0));
+        node["data"].push_back(toEmittable(M(i, 0)));
       }
     }
     return node;
-- 
2.43.0


From d4dc0be0b9d713530896590a84fa6482a2cdd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 13/99] fix: report when YAML could not be saved to a file

---
 aslam_cv_common/include/aslam/common/yaml-serialization.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization.h b/aslam_cv_common/include/aslam/common/yaml-serialization.h
index 0ae6ca3..d83930b 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization.h
@@ -64,16 +64,21 @@ bool Save(const ObjectType& object, std::ostream* ofs) {
     YAML::Node out;
     out = object;
     *ofs << out;
+    ofs->flush();
   } catch (const std::exception& e) {  // NOLINT
     LOG(ERROR)<< "Encountered exception while saving yaml " << e.what();
     return false;
   }
-  return true;
+  return ofs->good();
 }
 
 template <typename T>
 bool Save(const T& object, const std::string& filename) {
   std::ofstream ofs(filename.c_str());
+  if (!ofs.good()) {
+    LOG(ERROR) << "Unable to write file " << filename;
+    return false;
+  }
   return Save(object, &ofs);
 }
 
-- 
2.43.0


From 081d6f51fd5b17803a930c8150b25e718c4b9c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 14/99] fix: compute the exact Hamming distance for every size
 and alignment

---
 .../include/aslam/common/hamming-inl.h        | 57 +++++++++++--------
 .../include/aslam/common/hamming.h            | 16 +++---
 2 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 0d19583..0313637 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -41,6 +41,9 @@
 #ifndef ASLAM_COMMON_HAMMING_INL_H_
 #define ASLAM_COMMON_HAMMING_INL_H_
 
+#include <algorithm>
+#include <cstddef>
+
 #ifdef __ARM_NEON
 #include <aslam/common/neon-helpers.h>
 #endif  // __ARM_NEON
@@ -107,32 +110,36 @@ const int numberOf128BitWords) {
   xmm5 = _mm_setzero_si128();  // xmm5 -- global accumulator.
 
   const __m128i* end = signature1 + numberOf128BitWords;
-  xmm4 = xmm5;  // xmm4 -- local accumulator.
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
-  do {
-    xmm0 = _mm_xor_si128(*signature1++, *signature2++);
-    xmm1 = xmm0;
-    xmm1 = _mm_srl_epi16(xmm1, shiftval);
-    xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
-    xmm1 = _mm_and_si128(xmm1, xmm6);  // xmm1 := higher nibbles.
-    xmm2 = xmm7;
-    xmm3 = xmm7;  // Get popcount.
-    xmm2 = _mm_shuffle_epi8(xmm2, xmm0);  // For all nibbles.
-    xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
-    xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
-    xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
-  }while (signature1 < end);
-  // Update global accumulator(two 32-bits counters).
-  xmm4 = _mm_sad_epu8(xmm4, xmm5);
-  xmm5 = _mm_add_epi32(xmm5, xmm4);
-  // finally add together 32-bits counters stored in global accumulator.
-  // __asm__ volatile(
-  //  "movhlps  %%xmm5, %%xmm0 \n"
-  // TODO(slynen): fix with appropriate intrinsic
-  xmm0 = _mm_cvtps_epi32(_mm_movehl_ps(_mm_cvtepi32_ps(xmm0),
-      _mm_cvtepi32_ps(xmm5)));
-  xmm0 = _mm_add_epi32(xmm0, xmm5);
-  result = _mm_cvtsi128_si32(xmm0);
+  while (signature1 < end) {
+    // Every word adds up to eight to each of the 8-bit counters of the local
+    // accumulator, so these have to be emptied before they overflow.
+    constexpr std::ptrdiff_t kMaxWordsPerBlock = 31;
+    const __m128i* block_end =
+        signature1 + std::min<std::ptrdiff_t>(end - signature1, kMaxWordsPerBlock);
+    xmm4 = _mm_setzero_si128();  // xmm4 -- local accumulator.
+    do {
+      // Descriptors are not necessarily aligned.
+      xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++),
+                           _mm_loadu_si128(signature2++));
+      xmm1 = xmm0;
+      xmm1 = _mm_srl_epi16(xmm1, shiftval);
+      xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
+      xmm1 = _mm_and_si128(xmm1, xmm6);  // xmm1 := higher nibbles.
+      xmm2 = xmm7;
+      xmm3 = xmm7;  // Get popcount.
+      xmm2 = _mm_shuffle_epi8(xmm2, xmm0);  // For all nibbles.
+      xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
+      xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
+      xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
+    } while (signature1 < block_end);
+    // Update global accumulator(two 32-bits counters).
+    xmm4 = _mm_sad_epu8(xmm4, _mm_setzero_si128());
+    xmm5 = _mm_add_epi32(xmm5, xmm4);
+  }
+  // Finally add together the counters stored in the global accumulator.
+  result = static_cast<uint32_t>(_mm_cvtsi128_si32(xmm5)) +
+           static_cast<uint32_t>(_mm_cvtsi128_si32(_mm_srli_si128(xmm5, 8)));
   return result;
 }
 #endif  // __ARM_NEON
diff --git a/aslam_cv_common/include/aslam/common/hamming.h b/aslam_cv_common/include/aslam/common/hamming.h
index cf57f11..3f4b6e5 100644
--- a/aslam_cv_common/include/aslam/common/hamming.h
+++ b/aslam_cv_common/include/aslam/common/hamming.h
@@ -99,15 +99,13 @@ class  Hamming {
   static ResultType evaluate(const unsigned char* a,
                              const unsigned char* b,
                              const int size) {
-#ifdef __ARM_NEON
-    return NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
-                             reinterpret_cast<const uint8x16_t*>(b),
-                             size / 16);
-#else
-    return SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
-                              reinterpret_cast<const __m128i*>(b),
-                              size / 16);
-#endif  // __ARM_NEON
+    const int num_128_bit_words = size / 16;
+    ResultType distance = PopcntofXORed(a, b, num_128_bit_words);
+    // Count the bytes that do not fill a whole word one by one.
+    for (int i = num_128_bit_words * 16; i < size; ++i) {
+      distance += __builtin_popcount(a[i] ^ b[i]);
+    }
+    return distance;
   }
 
   // This will count the bits in a ^ b.
-- 
2.43.0


From 693ff81e166c28d0b9d701d852fb35bcddbeb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 15/99] fix: accept an empty list of indices to erase from a
 matrix

---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..24d02b1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,11 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From a269e02140060b81d9f09539ff3b28abcd7b2a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 16/99] fix: allow flipping all bits of a descriptor

---
 aslam_cv_common/include/aslam/common/feature-descriptor-ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h
index 7e536e5..43cf1b3 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref.h
@@ -134,7 +134,7 @@ inline void FlipNRandomBits(size_t num_bits_to_flip, FeatureDescriptorRef* descr
   int n(0);
   std::generate_n(
       std::back_inserter(bits_to_flip), descriptor_size_bits, [n]()mutable {return n++;});
-  CHECK_LT(num_bits_to_flip, bits_to_flip.size()) << "Cannot flip more than everything.";
+  CHECK_LE(num_bits_to_flip, bits_to_flip.size()) << "Cannot flip more than everything.";
   std::random_shuffle(bits_to_flip.begin(), bits_to_flip.end());
   for (size_t i = 0; i < num_bits_to_flip; ++i) {
     FlipBit(bits_to_flip[i], descriptor);
-- 
2.43.0


From eef902b4fddf9eb28e0fb3e456c8ad0a729020da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 17/99] fix: do not use, forget or keep freed descriptor memory

---
 .../aslam/common/feature-descriptor-ref-inl.h       | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 643ec5a..c3fdba1 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -81,6 +81,7 @@ inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::Release() {
   if (owned_) {
     delete[] data_;
     data_ = nullptr;
+    size_bytes_ = 0;
     owned_ = false;
   }
 }
@@ -107,9 +108,12 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
   // the other instance owns or not. If the other instance owns, we will
   // own data too and copy from it.
   if (owned_ || lhs.owned_) {
-    Allocate(lhs.size_bytes_);
-    CHECK_EQ(lhs.size_bytes_, size_bytes_);
-    memcpy(data_, lhs.data_, size_bytes_);
+    // The other instance may refer to the memory that this instance owns, so
+    // copy before releasing it.
+    const std::vector<unsigned char> copy(
+        lhs.data_, lhs.data_ == nullptr ? nullptr : lhs.data_ + lhs.size_bytes_);
+    Allocate(copy.size());
+    std::copy(copy.begin(), copy.end(), data_);
   } else {
     owned_ = lhs.owned_;
     size_bytes_ = lhs.size_bytes_;
@@ -172,6 +176,9 @@ FeatureDescriptorRefBase<unsigned char, WriteAccessors>::data() {
 
 inline void FeatureDescriptorRefBase<unsigned char, WriteAccessors>::set_data(
     unsigned char* data, bool owned) {
+  if (owned_ && data_ != data) {
+    delete[] data_;
+  }
   data_ = data;
   owned_ = owned;
 }
-- 
2.43.0


From d3b11b803df143807fd7dd4bdc9c42a8cba776dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 18/99] fix: let the occupancy grid shrink when its cells hold
 one point each

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..bf59ef3 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -268,8 +268,6 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
 template<typename PointType>
 size_t WeightedOccupancyGrid<PointType>::removeWeightedPointsFromOverfullCell(
     const GridCoordinates& grid_coords, size_t max_points_per_cell) {
-  CHECK_GT(max_points_per_cell, 0u);
-
   PointList& cell = getGridCell(grid_coords);
   if (cell.size() <= max_points_per_cell) {
     return 0u;
-- 
2.43.0


From 53e420c5115c1b194df57aeda8840e46e6d4ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 19/99] fix: let a cell of a constant occupancy grid be asked
 for

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 2 +-
 aslam_cv_common/include/aslam/common/occupancy-grid.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index bf59ef3..5516442 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -380,7 +380,7 @@ inline bool WeightedOccupancyGrid<PointType>::isValidGridCoordinates(
 template<typename PointType>
 inline typename WeightedOccupancyGrid<PointType>::GridCoordinates
 WeightedOccupancyGrid<PointType>::inputToGridCoordinates(
-    CoordinatesType u_rows, CoordinatesType v_cols) {
+    CoordinatesType u_rows, CoordinatesType v_cols) const {
   CHECK(isValidInputCoordinate(u_rows, v_cols))
       << "u_rows: " << u_rows << ", v_cols: " << v_cols;
   const size_t grid_row = static_cast<size_t>(std::floor(u_rows / cell_size_rows_));
diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid.h b/aslam_cv_common/include/aslam/common/occupancy-grid.h
index 97b4cc9..eecf800 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid.h
@@ -126,7 +126,7 @@ class WeightedOccupancyGrid {
   /// @}
 
  private:
-  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols);
+  GridCoordinates inputToGridCoordinates(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidInputCoordinate(CoordinatesType u_rows, CoordinatesType v_cols) const;
   inline bool isValidGridCoordinates(const GridCoordinates& grid_coordinates) const;
 
-- 
2.43.0


From e5b4deb234ab62bc8707117d0889bf1c162b6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 20/99] fix: let the weakest possible points replace each other
 in the occupancy grid

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index 5516442..94e9668 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -163,14 +163,13 @@ void WeightedOccupancyGrid<PointType>::addPointOrReplaceWeakestNearestPoints(
       const WeightType point_weight =
           cell[point_indices[violator_index]].weight;
 
-      if (point_weight > highest_weight) {
+      if (highest_weight_cell == nullptr || point_weight > highest_weight) {
         highest_weight = point_weight;
         highest_weight_cell = CHECK_NOTNULL(&cell);
         highest_weight_violator_idx = violator_index;
       }
     }
   }
-  CHECK_GT(highest_weight, std::numeric_limits<WeightType>::lowest());
   CHECK_NOTNULL(highest_weight_cell);
   CHECK_GE(highest_weight_violator_idx, 0);
   CHECK_LT(highest_weight_violator_idx, distance_violating_points[highest_weight_cell].size());
-- 
2.43.0


From 0d777509dbb82e67965b80beebf8162dba80836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 21/99] fix: compute descriptor distances without wrapping
 around

---
 .../include/aslam/common/descriptor-utils.h           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/descriptor-utils.h b/aslam_cv_common/include/aslam/common/descriptor-utils.h
index 9e592dd..b7a4d5d 100644
--- a/aslam_cv_common/include/aslam/common/descriptor-utils.h
+++ b/aslam_cv_common/include/aslam/common/descriptor-utils.h
@@ -1,6 +1,8 @@
 #ifndef VI_MAP_DESCRIPTOR_UTILS_H_
 #define VI_MAP_DESCRIPTOR_UTILS_H_
 
+#include <algorithm>
+#include <limits>
 #include <vector>
 
 #include <Eigen/Core>
@@ -194,7 +196,8 @@ inline double descriptorMeanStandardDeviation(
 }
 
 // Returned in order: p1p0, p2p0, p3p0, ... pnp0, p2p1, p3p1, ..., just like in
-// matlab pdist.
+// matlab pdist. Distances are rounded down, and limited to what the result can
+// hold.
 inline void pairwiseEuclidianDistances(const DescriptorsType& descriptors,
                                        DescriptorType* result) {
   const int num_descriptors = descriptors.cols();
@@ -203,8 +206,10 @@ inline void pairwiseEuclidianDistances(const DescriptorsType& descriptors,
   int result_index = 0;
   for (int i = 0; i < num_descriptors; ++i) {
     for (int j = i + 1; j < num_descriptors; ++j) {
-      (*result)(result_index) =
-          (descriptors.col(j) - descriptors.col(i)).norm();
+      const double distance = (descriptors.col(j).cast<double>() -
+                               descriptors.col(i).cast<double>()).norm();
+      (*result)(result_index) = static_cast<unsigned char>(
+          std::min<double>(distance, std::numeric_limits<unsigned char>::max()));
       ++result_index;
     }
   }
-- 
2.43.0


From a1aef122debd77feaa7b059f19a3175ef6dec0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 22/99] fix: let a constant descriptor reference be made from a
 writable one

---
 .../include/aslam/common/feature-descriptor-ref-inl.h         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index c3fdba1..7038b25 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -35,8 +35,8 @@ template <typename PointerType>
 inline FeatureDescriptorRefBase<PointerType, ReadOnlyAccessors>::
     FeatureDescriptorRefBase(
         const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& other) {
-  data_ = other.data_;
-  size_bytes_ = other.size_bytes_;
+  data_ = other.data();
+  size_bytes_ = other.size();
 }
 
 template <typename PointerType>
-- 
2.43.0


From 09469889cd87a53b1674c4cbffa19efc4800d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 23/99] fix: initialize the ownership of a copied descriptor
 before using it

---
 .../include/aslam/common/feature-descriptor-ref-inl.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
index 7038b25..2a78797 100644
--- a/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
+++ b/aslam_cv_common/include/aslam/common/feature-descriptor-ref-inl.h
@@ -125,7 +125,7 @@ operator=(const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs) {
 inline FeatureDescriptorRefBase<unsigned char, WriteAccessors>::
     FeatureDescriptorRefBase(
         const FeatureDescriptorRefBase<unsigned char, WriteAccessors>& lhs)
-    : Base(nullptr, 0) {
+    : Base(nullptr, 0), owned_(false) {
   if (lhs.owned_) {
     Allocate(lhs.size_bytes_);
     CHECK_EQ(lhs.size_bytes_, size_bytes_);
-- 
2.43.0


From abe04d74a7cbf3a80682e900bc36531e2e8a99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 24/99] fix: print and save statistics and timings under their
 lock

---
 aslam_cv_common/src/statistics.cc | 18 ++++++++++++++----
 aslam_cv_common/src/timer.cc      | 10 ++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index fdb822d..60ba39b 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -195,7 +195,13 @@ std::string Statistics::SecondsToTimeString(double seconds) {
 }
 
 void Statistics::Print(std::ostream& out) {  // NOLINT
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  size_t max_tag_length;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -203,7 +209,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   out << "Statistics\n";
 
-  out.width((std::streamsize)Instance().max_tag_length_);
+  out.width((std::streamsize)max_tag_length);
   out.setf(std::ios::left, std::ios::adjustfield);
   out << "-----------";
   out.width(7);
@@ -215,7 +221,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   for (const typename map_t::value_type& t : tag_map) {
     size_t i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
@@ -239,7 +245,11 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 }
 
 void Statistics::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 442012d..86c3df4 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -186,7 +186,11 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -225,9 +229,11 @@ void Timing::WriteToYamlFile(const std::string& path) {
 
 void Timing::Print(std::ostream& out) {  // NOLINT
   map_t tagMap;
+  size_t max_tag_length;
   {
     std::lock_guard<std::mutex> lock(Instance().mutex_);
     tagMap = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
   }
 
   if (tagMap.empty()) {
@@ -238,7 +244,7 @@ void Timing::Print(std::ostream& out) {  // NOLINT
   out << "-----------\n";
   for (typename map_t::value_type t : tagMap) {
     size_t time_i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
-- 
2.43.0


From 130a1f5dd9edf7b4e602d9f1672690d596fc576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 25/99] fix: subtract samples of any type in the sum type of
 the accumulator

---
 aslam_cv_common/include/aslam/common/statistics/accumulator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/statistics/accumulator.h b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
index fbb8613..b4b21ac 100644
--- a/aslam_cv_common/include/aslam/common/statistics/accumulator.h
+++ b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
@@ -37,7 +37,8 @@ class Accumulator {
       ++sample_index_;
     } else {
       SampleType& oldest = samples_.at(sample_index_++ % WindowSize);
-      window_sum_ += sample - oldest;
+      window_sum_ +=
+          static_cast<SumType>(sample) - static_cast<SumType>(oldest);
       oldest = sample;
     }
     sum_ += sample;
-- 
2.43.0


From a67e8295883aaa66d75e6233684ab6eca08da176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 26/99] fix: define the rolling mean of no samples like their
 mean

---
 aslam_cv_common/include/aslam/common/statistics/accumulator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/statistics/accumulator.h b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
index b4b21ac..c135c99 100644
--- a/aslam_cv_common/include/aslam/common/statistics/accumulator.h
+++ b/aslam_cv_common/include/aslam/common/statistics/accumulator.h
@@ -67,7 +67,9 @@ class Accumulator {
   // function for our infinite accumulator at this point.
   SumType RollingMean() const {
     if (WindowSize < kInfiniteWindowSize) {
-      return window_sum_ / std::min(sample_index_, WindowSize);
+      return (sample_index_ < 1)
+                 ? 0.0
+                 : window_sum_ / std::min(sample_index_, WindowSize);
     } else {
       return Mean();
     }
-- 
2.43.0


From e5ab18a1a4d2b798a72270aa8e51df89abf0632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 27/99] fix: print negative times of less than a second without
 an empty number of seconds

---
 aslam_cv_common/include/aslam/common/time.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/time.h b/aslam_cv_common/include/aslam/common/time.h
index 9308b5b..278336f 100644
--- a/aslam_cv_common/include/aslam/common/time.h
+++ b/aslam_cv_common/include/aslam/common/time.h
@@ -74,14 +74,16 @@ inline bool isValidTime(int64_t time) {
 
 inline std::string timeNanosecondsToString(const int64_t timestamp_nanoseconds) {
   const std::string timestamp_string = std::to_string(timestamp_nanoseconds);
-  const size_t num_digits = timestamp_string.size();
+  const size_t num_characters = timestamp_string.size();
+  const size_t num_digits =
+      timestamp_nanoseconds < 0 ? num_characters - 1u : num_characters;
   if (num_digits < 10u) {
     return timestamp_string + "ns";
   }
 
   const std::string timestamp_with_units =
-      timestamp_string.substr(0u, num_digits - 9u) + "s " +
-      timestamp_string.substr(num_digits - 9u) + "ns";
+      timestamp_string.substr(0u, num_characters - 9u) + "s " +
+      timestamp_string.substr(num_characters - 9u) + "ns";
   return timestamp_with_units;
 }
 
-- 
2.43.0


From c120ce9b8bd5b4691d034e2b27ff50d1e0ef0ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 28/99] fix: round to the nearest nanosecond when converting to
 nanoseconds

---
 aslam_cv_common/include/aslam/common/time.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/time.h b/aslam_cv_common/include/aslam/common/time.h
index 278336f..cd72803 100644
--- a/aslam_cv_common/include/aslam/common/time.h
+++ b/aslam_cv_common/include/aslam/common/time.h
@@ -2,7 +2,10 @@
 #define ASLAM_TIME_H_
 
 #include <chrono>
+#include <cmath>
 #include <cstdint>
+#include <limits>
+#include <string>
 
 namespace aslam {
 namespace time {
@@ -18,7 +21,7 @@ template<typename TimeUnit> inline constexpr int64_t convertToNanosecondsCompile
   return value * time_traits<TimeUnit>::nanoseconds;
 }
 template<typename TimeUnit> inline static int64_t convertToNanoseconds(double value) {
-  return static_cast<int64_t>(value * time_traits<TimeUnit>::nanoseconds);
+  return std::llround(value * time_traits<TimeUnit>::nanoseconds);
 }
 template<typename TimeUnit> inline static double convertFromNanoseconds(int64_t value) {
   return static_cast<double>(value) / static_cast<double>(time_traits<TimeUnit>::nanoseconds);
-- 
2.43.0


From 400ad4fe91ea139ecc004aaf103fdd009ea5685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 29/99] fix: compare every channel of every pixel in
 ImagesEqual

---
 aslam_cv_common/include/aslam/common/opencv-predicates.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/opencv-predicates.h b/aslam_cv_common/include/aslam/common/opencv-predicates.h
index 1699645..aabd0fa 100644
--- a/aslam_cv_common/include/aslam/common/opencv-predicates.h
+++ b/aslam_cv_common/include/aslam/common/opencv-predicates.h
@@ -54,8 +54,8 @@ inline testing::AssertionResult ImagesEqualTyped(const cv::Mat& A,
   for (int r = 0; r < A.rows; ++r) {
     for (int c = 0; c < A.cols; ++c) {
       for(int ch = 0; ch < A.channels(); ++ch) {
-        Scalar Aij = (&A.at<Scalar>(r, c))[ch];
-        Scalar Bij = (&B.at<Scalar>(r, c))[ch];
+        Scalar Aij = A.ptr<Scalar>(r)[c * A.channels() + ch];
+        Scalar Bij = B.ptr<Scalar>(r)[c * B.channels() + ch];
         if (!std::isfinite(Aij) ||
             !std::isfinite(Bij) ||
             !Eigen::internal::isApprox(Aij, Bij, tolerance)) {
-- 
2.43.0


From f709b63b304517c112eb10fd6bbd9ee90d2710d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 30/99] fix: compare images by their absolute difference as
 documented

---
 aslam_cv_common/include/aslam/common/opencv-predicates.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/opencv-predicates.h b/aslam_cv_common/include/aslam/common/opencv-predicates.h
index aabd0fa..eed42e7 100644
--- a/aslam_cv_common/include/aslam/common/opencv-predicates.h
+++ b/aslam_cv_common/include/aslam/common/opencv-predicates.h
@@ -58,7 +58,8 @@ inline testing::AssertionResult ImagesEqualTyped(const cv::Mat& A,
         Scalar Bij = B.ptr<Scalar>(r)[c * B.channels() + ch];
         if (!std::isfinite(Aij) ||
             !std::isfinite(Bij) ||
-            !Eigen::internal::isApprox(Aij, Bij, tolerance)) {
+            std::abs(static_cast<double>(Aij) - static_cast<double>(Bij)) >
+                tolerance) {
           spy_difference << "x";
           if (A.rows == 1) {
             failure_reason <<
-- 
2.43.0


From 12c22b363cd0d00756816b539162218424be57b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 31/99] fix: use the model's own parameters for the parameter
 Jacobian when none are given

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 3 +++
 aslam_cv_cameras/src/distortion-fisheye.cc     | 3 +++
 aslam_cv_cameras/src/distortion-radtan.cc      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..1fb25bb 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -110,6 +110,9 @@ void EquidistantDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..0762ca8 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -82,6 +82,9 @@ void FisheyeDistortion::distortUsingExternalCoefficients(const Eigen::VectorXd*
 void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coeffs,
                                                  const Eigen::Vector2d& point,
                                                  Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
diff --git a/aslam_cv_cameras/src/distortion-radtan.cc b/aslam_cv_cameras/src/distortion-radtan.cc
index 12deb37..3d0da9c 100644
--- a/aslam_cv_cameras/src/distortion-radtan.cc
+++ b/aslam_cv_cameras/src/distortion-radtan.cc
@@ -68,6 +68,9 @@ void RadTanDistortion::distortParameterJacobian(
     const Eigen::VectorXd* dist_coeffs,
     const Eigen::Vector2d& point,
     Eigen::Matrix<double, 2, Eigen::Dynamic>* out_jacobian) const {
+  // Use internal params if dist_coeffs==nullptr
+  if(!dist_coeffs)
+    dist_coeffs = &distortion_coefficients_;
   CHECK_EQ(dist_coeffs->size(), kNumOfParams) << "dist_coeffs: invalid size!";
   CHECK_NOTNULL(out_jacobian);
 
-- 
2.43.0


From 81decb003f0a9cf53af1ca039e702635f9f9c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 32/99] fix: compare distortions with different numbers of
 parameters as unequal

---
 aslam_cv_cameras/src/distortion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion.cc b/aslam_cv_cameras/src/distortion.cc
index a263414..7247355 100644
--- a/aslam_cv_cameras/src/distortion.cc
+++ b/aslam_cv_cameras/src/distortion.cc
@@ -24,7 +24,8 @@ bool Distortion::operator==(const Distortion& rhs) const {
   if (typeid(*this) != typeid(rhs))
     return false;
 
-  if (distortion_coefficients_ != rhs.distortion_coefficients_)
+  if (distortion_coefficients_.size() != rhs.distortion_coefficients_.size() ||
+      distortion_coefficients_ != rhs.distortion_coefficients_)
     return false;
 
   return true;
-- 
2.43.0


From 6516b741e3ec744a27e9516aaa5dc25e190272b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 33/99] fix: make the equidistant Jacobian the identity at the
 image center

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 1fb25bb..d22cc8a 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From 10d2b5f42e68d51be85d633319206726cb28c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 34/99] fix: scale the fisheye parameter Jacobian with the
 point near the center

---
 aslam_cv_cameras/src/distortion-fisheye.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 0762ca8..eb2cc25 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -103,7 +103,7 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
+    *out_jacobian = point;
     *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
   }
   else {
-- 
2.43.0


From 85ae850fa5195c56a9b3acd87c7155fc5c2b4085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 35/99] fix: count the aligned points over the whole rectangle
 in the line segment detector

---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 5f94958..e6de685 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -1163,18 +1163,19 @@ double LineSegmentDetectorImpl::rect_nfa(const rect& rec) const
     tailp->taken = true;
 
     double flstep = (min_y->p.y != leftmost->p.y) ?
-                    (min_y->p.x - leftmost->p.x) / (min_y->p.y - leftmost->p.y) : 0; //first left step
-    double slstep = (leftmost->p.y != tailp->p.x) ?
-                    (leftmost->p.x - tailp->p.x) / (leftmost->p.y - tailp->p.x) : 0; //second left step
+                    double(min_y->p.x - leftmost->p.x) / (min_y->p.y - leftmost->p.y) : 0; //first left step
+    double slstep = (leftmost->p.y != tailp->p.y) ?
+                    double(leftmost->p.x - tailp->p.x) / (leftmost->p.y - tailp->p.y) : 0; //second left step
 
     double frstep = (min_y->p.y != rightmost->p.y) ?
-                    (min_y->p.x - rightmost->p.x) / (min_y->p.y - rightmost->p.y) : 0; //first right step
-    double srstep = (rightmost->p.y != tailp->p.x) ?
-                    (rightmost->p.x - tailp->p.x) / (rightmost->p.y - tailp->p.x) : 0; //second right step
+                    double(min_y->p.x - rightmost->p.x) / (min_y->p.y - rightmost->p.y) : 0; //first right step
+    double srstep = (rightmost->p.y != tailp->p.y) ?
+                    double(rightmost->p.x - tailp->p.x) / (rightmost->p.y - tailp->p.y) : 0; //second right step
 
     double lstep = flstep, rstep = frstep;
 
-    double left_x = min_y->p.x, right_x = min_y->p.x;
+    double left_x = (min_y->p.y != leftmost->p.y) ? min_y->p.x : leftmost->p.x;
+    double right_x = (min_y->p.y != rightmost->p.y) ? min_y->p.x : rightmost->p.x;
 
     // Loop around all points in the region and count those that are aligned.
     int min_iter = min_y->p.y;
-- 
2.43.0


From bc13eb0f19d21d1fc686d8c6ccbaf4f9caca4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 36/99] fix: ignore regions of a single pixel in the line
 segment detector

---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index e6de685..7d3a027 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -573,7 +573,7 @@ void LineSegmentDetectorImpl::flsd(std::vector<Vec4i>& lines,
     }
 
     LOG_NT = 5 * (log10(double(img_width)) + log10(double(img_height))) / 2 + log10(11.0);
-    const int min_reg_size = int(-LOG_NT/log10(p)); // minimal number of points in region that can give a meaningful event
+    const int min_reg_size = std::max(2, int(-LOG_NT/log10(p))); // minimal number of points in region that can give a meaningful event
 
     // // Initialize region only when needed
     // Mat region = Mat::zeros(scaled_image.size(), CV_8UC1);
-- 
2.43.0


From c42d87f714dd6827d7942a91aa084cf06d880a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 37/99] fix: use all line segments of a matrix, not only those
 of its first row

---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 7d3a027..64d1702 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -1289,7 +1289,7 @@ void LineSegmentDetectorImpl::drawSegments(InputOutputArray _image, const InputA
     _lines = lines.getMat();
 
     // Draw segments
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < static_cast<int>(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
@@ -1314,13 +1314,13 @@ int LineSegmentDetectorImpl::compareSegments(const Size& size, const InputArray
     _lines2 = lines2.getMat();
     // Draw segments
     std::vector<Mat> _lines;
-    for(int i = 0; i < _lines1.size().width; ++i)
+    for(int i = 0; i < static_cast<int>(_lines1.total()); ++i)
     {
         Point b(_lines1.at<Vec4i>(i)[0], _lines1.at<Vec4i>(i)[1]);
         Point e(_lines1.at<Vec4i>(i)[2], _lines1.at<Vec4i>(i)[3]);
         line(I1, b, e, Scalar::all(255), 1);
     }
-    for(int i = 0; i < _lines2.size().width; ++i)
+    for(int i = 0; i < static_cast<int>(_lines2.total()); ++i)
     {
         Point b(_lines2.at<Vec4i>(i)[0], _lines2.at<Vec4i>(i)[1]);
         Point e(_lines2.at<Vec4i>(i)[2], _lines2.at<Vec4i>(i)[3]);
@@ -1380,7 +1380,7 @@ int LineSegmentDetectorImpl::angle_filtering(InputArray lines, OutputArray filte
     std::vector<Vec4i> f;
     Mat _lines = lines.getMat();
 
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < static_cast<int>(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
@@ -1417,7 +1417,7 @@ int LineSegmentDetectorImpl::filterSize(InputArray lines, OutputArray filtered,
     std::vector<Vec4i> f;
     Mat _lines = lines.getMat();
 
-    for(int i = 0; i < _lines.size().width; ++i)
+    for(int i = 0; i < static_cast<int>(_lines.total()); ++i)
     {
         const Vec4i& v = _lines.at<Vec4i>(i);
         Point b(v[0], v[1]);
-- 
2.43.0


From 8ba08b7006b2f5071da15030fff8cdda3a8e352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 38/99] fix: intersect line segments in double precision

---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 64d1702..18b564c 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -491,7 +491,7 @@ private:
 /*
  * Finds the equation parameters of a line in the form of Ax + By = C.
  */
-    void find_eq_params(const Vec4i& line, float& a, float& b, float& c) const;
+    void find_eq_params(const Vec4i& line, double& a, double& b, double& c) const;
 
 };
 
@@ -1434,7 +1434,7 @@ int LineSegmentDetectorImpl::filterSize(InputArray lines, OutputArray filtered,
     return num_filtered;
 }
 
-void LineSegmentDetectorImpl::find_eq_params(const Vec4i& line, float& a, float& b, float& c) const
+void LineSegmentDetectorImpl::find_eq_params(const Vec4i& line, double& a, double& b, double& c) const
 {
     a = line[3] - line[1];
     b = line[0] - line[2];
@@ -1448,12 +1448,12 @@ bool LineSegmentDetectorImpl::intersection(InputArray line1, InputArray line2, P
     Vec4i l1 = line1.getMat().at<Vec4i>(0);
     Vec4i l2 = line2.getMat().at<Vec4i>(0);
 
-    float x, y, a1, b1, a2, b2, c1, c2;
+    double x, y, a1, b1, a2, b2, c1, c2;
 
     find_eq_params(l1, a1, b1, c1);
     find_eq_params(l2, a2, b2, c2);
 
-    float det = a1 * b2 - a2 * b1;
+    double det = a1 * b2 - a2 * b1;
     if (det == 0)
     {
         return false;
-- 
2.43.0


From 5913817d283d929fa74dfa650580d59e4591f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 39/99] fix: FED reordering of a single step read before the
 steps

For n = 1 kappa was 0 and the index -1.
---
 aslam_cv_detector/src/kaze/fed.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/fed.cpp b/aslam_cv_detector/src/kaze/fed.cpp
index 54dab84..61dad21 100644
--- a/aslam_cv_detector/src/kaze/fed.cpp
+++ b/aslam_cv_detector/src/kaze/fed.cpp
@@ -92,7 +92,8 @@ int fed_tau_internal(const int n, const float scale, const float tau_max,
 
     // Choose kappa cycle with k = n/2
     // This is a heuristic. We can use Leja ordering instead!!
-    int kappa = n / 2;
+    // (a single step needs kappa = 1, as multiples of zero reach no step)
+    int kappa = n > 1 ? n / 2 : 1;
 
     // Get modulus for permutation
     int prime = n + 1;
-- 
2.43.0


From 8d9b135970ce0f529660a8b9753cc27811b8d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 40/99] fix: a diffusion step read outside images of one row or
 column

The border rows and columns used row 1 and column 1 without checking that
they exist.  Single-column images were updated twice per border pixel with
flux terms of stray memory.
---
 .../src/kaze/nldiffusion_functions.cpp        | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
index 6f8eb37..65690dd 100755
--- a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
+++ b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
@@ -284,9 +284,14 @@ void nld_step_scalar(cv::Mat& Ld, const cv::Mat& c, cv::Mat& Lstep, const float
 
   // First row
   const float* c_row = c.ptr<float>(0);
-  const float* c_row_p = c.ptr<float>(1);
+  // (neighbours beyond the image are replaced by the pixel itself: no flux)
+  const int col_next = min(1, Lstep.cols-1);
+  const int col_prev = max(Lstep.cols-2, 0);
+  const int row_next = min(1, Lstep.rows-1);
+  const int row_prev = max(Lstep.rows-2, 0);
+  const float* c_row_p = c.ptr<float>(row_next);
   float* Ld_row = Ld.ptr<float>(0);
-  float* Ld_row_p = Ld.ptr<float>(1);
+  float* Ld_row_p = Ld.ptr<float>(row_next);
   float* Lstep_row = Lstep.ptr<float>(0);
 
   for (int x = 1; x < Lstep.cols-1; x++) {
@@ -296,20 +301,20 @@ void nld_step_scalar(cv::Mat& Ld, const cv::Mat& c, cv::Mat& Lstep, const float
     Lstep_row[x] = 0.5*stepsize*(xpos-xneg + ypos);
   }
 
-  float xpos = (c_row[0]+c_row[1])*(Ld_row[1]-Ld_row[0]);
+  float xpos = (c_row[0]+c_row[col_next])*(Ld_row[col_next]-Ld_row[0]);
   float ypos = (c_row[0]+c_row_p[0])*(Ld_row_p[0]-Ld_row[0]);
   Lstep_row[0] = 0.5*stepsize*(xpos + ypos);
 
   int x = Lstep.cols-1;
-  float xneg = (c_row[x-1]+c_row[x])*(Ld_row[x]-Ld_row[x-1]);
+  float xneg = (c_row[col_prev]+c_row[x])*(Ld_row[x]-Ld_row[col_prev]);
   ypos = (c_row[x]+c_row_p[x])*(Ld_row_p[x]-Ld_row[x]);
   Lstep_row[x] = 0.5*stepsize*(-xneg + ypos);
 
   // Last row
   c_row = c.ptr<float>(Lstep.rows-1);
-  c_row_p = c.ptr<float>(Lstep.rows-2);
+  c_row_p = c.ptr<float>(row_prev);
   Ld_row = Ld.ptr<float>(Lstep.rows-1);
-  Ld_row_p = Ld.ptr<float>(Lstep.rows-2);
+  Ld_row_p = Ld.ptr<float>(row_prev);
   Lstep_row = Lstep.ptr<float>(Lstep.rows-1);
 
   for (int x = 1; x < Lstep.cols-1; x++) {
@@ -319,12 +324,12 @@ void nld_step_scalar(cv::Mat& Ld, const cv::Mat& c, cv::Mat& Lstep, const float
     Lstep_row[x] = 0.5*stepsize*(xpos-xneg + ypos);
   }
 
-  xpos = (c_row[0]+c_row[1])*(Ld_row[1]-Ld_row[0]);
+  xpos = (c_row[0]+c_row[col_next])*(Ld_row[col_next]-Ld_row[0]);
   ypos = (c_row[0]+c_row_p[0])*(Ld_row_p[0]-Ld_row[0]);
   Lstep_row[0] = 0.5*stepsize*(xpos + ypos);
 
   x = Lstep.cols-1;
-  xneg = (c_row[x-1]+c_row[x])*(Ld_row[x]-Ld_row[x-1]);
+  xneg = (c_row[col_prev]+c_row[x])*(Ld_row[x]-Ld_row[col_prev]);
   ypos = (c_row[x]+c_row_p[x])*(Ld_row_p[x]-Ld_row[x]);
   Lstep_row[x] = 0.5*stepsize*(-xneg + ypos);
 
@@ -339,12 +344,12 @@ void nld_step_scalar(cv::Mat& Ld, const cv::Mat& c, cv::Mat& Lstep, const float
     float* Ld_row_m = Ld.ptr<float>(i-1);
     Lstep_row = Lstep.ptr<float>(i);
 
-    float xpos = (c_row[0]+c_row[1])*(Ld_row[1]-Ld_row[0]);
+    float xpos = (c_row[0]+c_row[col_next])*(Ld_row[col_next]-Ld_row[0]);
     float ypos = (c_row[0]+c_row_p[0])*(Ld_row_p[0]-Ld_row[0]);
     float yneg = (c_row_m[0]+c_row[0])*(Ld_row[0]-Ld_row_m[0]);
     Lstep_row[0] = 0.5*stepsize*(xpos+ypos-yneg);
 
-    float xneg = (c_row[Lstep.cols-2]+c_row[Lstep.cols-1])*(Ld_row[Lstep.cols-1]-Ld_row[Lstep.cols-2]);
+    float xneg = (c_row[col_prev]+c_row[Lstep.cols-1])*(Ld_row[Lstep.cols-1]-Ld_row[col_prev]);
     ypos = (c_row[Lstep.cols-1]+c_row_p[Lstep.cols-1])*(Ld_row_p[Lstep.cols-1]-Ld_row[Lstep.cols-1]);
     yneg = (c_row_m[Lstep.cols-1]+c_row[Lstep.cols-1])*(Ld_row[Lstep.cols-1]-Ld_row_m[Lstep.cols-1]);
     Lstep_row[Lstep.cols-1] = 0.5*stepsize*(-xneg+ypos-yneg);
-- 
2.43.0


From d1e6e3d4c068398ddddaa6aa7b36d589a0b1876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 41/99] fix: AOS diffusion wrote outside its buffer for images
 that are not square

Ltx_ holds the transposed solution, but was allocated untransposed.
---
 aslam_cv_detector/src/kaze/KAZE.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 4b0283a..029ebe9 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -82,7 +82,8 @@ void KAZE::Allocate_Memory_Evolution() {
   }
   // Allocate memory for the auxiliary variables that are used in the AOS scheme
   else {
-    Ltx_.create(size, CV_32F);
+    // The solution along the rows is computed on the transposed image
+    Ltx_.create(options_.img_width, options_.img_height, CV_32F);
     Lty_.create(size, CV_32F);
     px_.create(size, CV_32F);
     py_.create(size, CV_32F);
-- 
2.43.0


From e7aa5b2abf2c72b690ed7280808d163bc151886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 42/99] fix: derivative kernels of large scales overran a fixed
 buffer

Scales of 500 and more (nine octaves at the default offset) need more than
1000 entries.
---
 aslam_cv_detector/src/kaze/nldiffusion_functions.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
index 65690dd..f570746 100755
--- a/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
+++ b/aslam_cv_detector/src/kaze/nldiffusion_functions.cpp
@@ -232,10 +232,7 @@ void compute_derivative_kernels(cv::OutputArray kx_, cv::OutputArray ky_,
   for (int k = 0; k < 2; k++) {
     cv::Mat* kernel = k == 0 ? &kx : &ky;
     int order = k == 0 ? dx : dy;
-    float kerI[1000];
-
-    for (int t = 0; t<ksize; t++)
-      kerI[t] = 0;
+    vector<float> kerI(ksize, 0.0f);
 
     if (order == 0) {
       kerI[0] = norm;
-- 
2.43.0


From e43d87cf2c516e7f8ad99b29c008ad07ef914851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 43/99] fix: KAZE accessed memory outside images of an
 unexpected type or size

Create_Nonlinear_Scale_Space reports failure for them, as documented.
---
 aslam_cv_detector/src/kaze/KAZE.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 029ebe9..46b2d91 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -107,6 +107,15 @@ int KAZE::Create_Nonlinear_Scale_Space(const cv::Mat& img) {
     return -1;
   }
 
+  // The evolution is computed in place, on float images of the allocated size
+  if (img.type() != CV_32FC1 || img.cols != options_.img_width || img.rows != options_.img_height ||
+      img.cols < 2 || img.rows < 2) {
+    cerr << "Error generating the nonlinear scale space!!" << endl;
+    cerr << "The image has to be a CV_32FC1 image of size " << options_.img_width << "x"
+         << options_.img_height << ", and at least of size 2x2" << endl;
+    return -1;
+  }
+
   t1 = cv::getTickCount();
 
   // Copy the original image to the first level of the evolution
-- 
2.43.0


From 8c5d0a6c5400d0528a727f3cdc572236ab06b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 44/99] fix: KAZE mixed new features with those already in the
 output list

The old ones suppressed new ones next to them and were refined again.
---
 aslam_cv_detector/src/kaze/KAZE.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_detector/src/kaze/KAZE.cpp b/aslam_cv_detector/src/kaze/KAZE.cpp
index 46b2d91..ba9fa1f 100755
--- a/aslam_cv_detector/src/kaze/KAZE.cpp
+++ b/aslam_cv_detector/src/kaze/KAZE.cpp
@@ -291,6 +291,7 @@ void KAZE::Determinant_Hessian_Parallel(std::vector<cv::KeyPoint>& kpts) {
     vector<cv::KeyPoint>().swap(kpts_par_[i]);
 
   kpts_par_.clear();
+  kpts.clear();
   vector<cv::KeyPoint> aux;
 
   // Allocate memory for the vector of vectors
-- 
2.43.0


From 30f3a36735d9caea2fb3a804102ed190bc6a6633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 45/99] fix: extremes of float images above 1000 or below zero

The minimum of an image above 1000 was reported as 1000, the maximum of a
negative image as 0.
---
 aslam_cv_detector/src/kaze/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_detector/src/kaze/utils.cpp b/aslam_cv_detector/src/kaze/utils.cpp
index 718883b..61973d5 100755
--- a/aslam_cv_detector/src/kaze/utils.cpp
+++ b/aslam_cv_detector/src/kaze/utils.cpp
@@ -26,13 +26,14 @@
 
 // System
 #include <fstream>
+#include <limits>
 
 using namespace std;
 
 /* ************************************************************************* */
 void compute_min_32F(const cv::Mat& src, float& value) {
 
-  float aux = 1000.0;
+  float aux = std::numeric_limits<float>::max();
 
   for (int i = 0; i < src.rows; i++) {
     for(int j = 0; j < src.cols; j++) {
@@ -48,7 +49,7 @@ void compute_min_32F(const cv::Mat& src, float& value) {
 /* ************************************************************************* */
 void compute_max_32F(const cv::Mat& src, float& value) {
 
-  float aux = 0.0;
+  float aux = -std::numeric_limits<float>::max();
 
   for (int i = 0; i < src.rows; i++) {
     for (int j = 0; j < src.cols; j++) {
-- 
2.43.0


From ad177aca130b1f7e9fa15ca0df4210bd90405079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 46/99] fix: rescaling a constant image divided by zero

---
 aslam_cv_detector/src/kaze/utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_detector/src/kaze/utils.cpp b/aslam_cv_detector/src/kaze/utils.cpp
index 61973d5..d083c09 100755
--- a/aslam_cv_detector/src/kaze/utils.cpp
+++ b/aslam_cv_detector/src/kaze/utils.cpp
@@ -69,7 +69,9 @@ void convert_scale(cv::Mat& src) {
   compute_min_32F(src,min_val);
   src = src - min_val;
   compute_max_32F(src,max_val);
-  src = src / max_val;
+  // (a constant image is zero everywhere by now)
+  if (max_val > 0)
+    src = src / max_val;
 }
 
 /* ************************************************************************* */
@@ -80,7 +82,9 @@ void copy_and_convert_scale(const cv::Mat& src, cv::Mat& dst) {
   compute_min_32F(dst,min_val);
   dst = dst - min_val;
   compute_max_32F(dst,max_val);
-  dst = dst / max_val;
+  // (a constant image is zero everywhere by now)
+  if (max_val > 0)
+    dst = dst / max_val;
 }
 
 /* ************************************************************************* */
-- 
2.43.0


From e5bc6239761b30d80686f04c7e5174613500173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 47/99] fix: ratio matching read a second candidate that need
 not exist

---
 aslam_cv_detector/src/kaze/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_detector/src/kaze/utils.cpp b/aslam_cv_detector/src/kaze/utils.cpp
index d083c09..c287c68 100755
--- a/aslam_cv_detector/src/kaze/utils.cpp
+++ b/aslam_cv_detector/src/kaze/utils.cpp
@@ -170,6 +170,10 @@ void matches2points_nndr(const std::vector<cv::KeyPoint>& train, const std::vect
 
   float dist1 = 0.0, dist2 = 0.0;
   for (size_t i = 0; i < matches.size(); i++) {
+    // There is no second best among fewer than two candidates
+    if (matches[i].size() < 2)
+      continue;
+
     cv::DMatch dmatch = matches[i][0];
     dist1 = matches[i][0].distance;
     dist2 = matches[i][1].distance;
-- 
2.43.0


From 0234f1c65fa3e8ff9c6ce15e62b1f9802c9832f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 48/99] fix: draw_inliers copied the second image without
 resizing it

The resized copy was computed but not used; a smaller second image was read
outside its bounds.
---
 aslam_cv_detector/src/kaze/utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_detector/src/kaze/utils.cpp b/aslam_cv_detector/src/kaze/utils.cpp
index c287c68..dddbb49 100755
--- a/aslam_cv_detector/src/kaze/utils.cpp
+++ b/aslam_cv_detector/src/kaze/utils.cpp
@@ -282,9 +282,9 @@ void draw_inliers(const cv::Mat& img1, const cv::Mat& img2, cv::Mat& img_com,
         *(img_com.ptr<unsigned char>(i)+3*j+2) = *(img1.ptr<unsigned char>(i)+3*j+2);
       }
       else {
-        *(img_com.ptr<unsigned char>(i)+3*j) = *(img2.ptr<unsigned char>(i)+3*(j-img_aux.cols));
-        *(img_com.ptr<unsigned char>(i)+3*j+1) = *(img2.ptr<unsigned char>(i)+3*(j-img_aux.cols)+1);
-        *(img_com.ptr<unsigned char>(i)+3*j+2) = *(img2.ptr<unsigned char>(i)+3*(j-img_aux.cols)+2);
+        *(img_com.ptr<unsigned char>(i)+3*j) = *(img_aux.ptr<unsigned char>(i)+3*(j-img_aux.cols));
+        *(img_com.ptr<unsigned char>(i)+3*j+1) = *(img_aux.ptr<unsigned char>(i)+3*(j-img_aux.cols)+1);
+        *(img_com.ptr<unsigned char>(i)+3*j+2) = *(img_aux.ptr<unsigned char>(i)+3*(j-img_aux.cols)+2);
       }
     }
   }
@@ -326,9 +326,9 @@ void draw_inliers(const cv::Mat& img1, const cv::Mat& img2, cv::Mat& img_com,
         *(img_com.ptr<unsigned char>(i)+3*j+2) = *(img1.ptr<unsigned char>(i)+3*j+2);
       }
       else {
-        *(img_com.ptr<unsigned char>(i)+3*j) = *(img2.ptr<unsigned char>(i)+3*(j-img_aux.cols));
-        *(img_com.ptr<unsigned char>(i)+3*j+1) = *(img2.ptr<unsigned char>(i)+3*(j-img_aux.cols)+1);
-        *(img_com.ptr<unsigned char>(i)+3*j+2) = *(img2.ptr<unsigned char>(i)+3*(j-img_aux.cols)+2);
+        *(img_com.ptr<unsigned char>(i)+3*j) = *(img_aux.ptr<unsigned char>(i)+3*(j-img_aux.cols));
+        *(img_com.ptr<unsigned char>(i)+3*j+1) = *(img_aux.ptr<unsigned char>(i)+3*(j-img_aux.cols)+1);
+        *(img_com.ptr<unsigned char>(i)+3*j+2) = *(img_aux.ptr<unsigned char>(i)+3*(j-img_aux.cols)+2);
       }
     }
   }
-- 
2.43.0


From 0f097b7c8cdbc700946eac495d2c3ab505cecdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:19 +0000
Subject: [PATCH 49/99] fix: look up a corner by its id on the target in
 partial observations

---
 .../include/aslam/calibration/target-observation.h             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..08b92f1 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,8 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_GE(corner_id, 0);
+    CHECK_LT(static_cast<size_t>(corner_id), target_->size());
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From bd4ef5bb1cd1fb7faa5f578c7d9133dd7f4fb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 50/99] fix: release the memory of aligned_unique when the
 constructor throws

---
 aslam_cv_common/include/aslam/common/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/memory.h b/aslam_cv_common/include/aslam/common/memory.h
index 3e79793..4b2b00a 100644
--- a/aslam_cv_common/include/aslam/common/memory.h
+++ b/aslam_cv_common/include/aslam/common/memory.h
@@ -77,7 +77,12 @@ inline AlignedUniquePtr<Type> aligned_unique(Arguments&&... arguments) {
   typedef typename std::remove_const<Type>::type TypeNonConst;
   Eigen::aligned_allocator<TypeNonConst> allocator;
   TypeNonConst* obj = allocator.allocate(1u);
-  allocator.construct(obj, std::forward<Arguments>(arguments)...);
+  try {
+    allocator.construct(obj, std::forward<Arguments>(arguments)...);
+  } catch (...) {
+    allocator.deallocate(obj, 1u /*num*/);
+    throw;
+  }
   return std::move(AlignedUniquePtr<Type>(obj));
 }
 
-- 
2.43.0


From 7be26aeb7b3be9f2e44efcf23b0e83325ecbf5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 51/99] fix: let AlignedUniquePtr delete objects of constant
 types

---
 aslam_cv_common/include/aslam/common/memory.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/memory.h b/aslam_cv_common/include/aslam/common/memory.h
index 4b2b00a..44d46fc 100644
--- a/aslam_cv_common/include/aslam/common/memory.h
+++ b/aslam_cv_common/include/aslam/common/memory.h
@@ -62,15 +62,16 @@ struct aligned_delete {
     static_assert(sizeof(Type) > 0, "Can't delete pointer to incomplete type!");
     typedef typename std::remove_const<Type>::type TypeNonConst;
     Eigen::aligned_allocator<TypeNonConst> allocator;
-    allocator.destroy(ptr);
-    allocator.deallocate(ptr, 1u /*num*/);
+    TypeNonConst* object = const_cast<TypeNonConst*>(ptr);
+    allocator.destroy(object);
+    allocator.deallocate(object, 1u /*num*/);
   }
 };
 }  // namespace internal
 
 template <typename Type>
-using AlignedUniquePtr = std::unique_ptr<
-    Type, internal::aligned_delete<typename std::remove_const<Type>::type>>;
+using AlignedUniquePtr =
+    std::unique_ptr<Type, internal::aligned_delete<Type>>;
 
 template <typename Type, typename... Arguments>
 inline AlignedUniquePtr<Type> aligned_unique(Arguments&&... arguments) {
-- 
2.43.0


From 20883d4852d871caf03d4cbae830b16408bcf4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 52/99] fix: free the block an object was allocated in when
 AlignedUniquePtr holds a base of it

---
 aslam_cv_common/include/aslam/common/memory.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/memory.h b/aslam_cv_common/include/aslam/common/memory.h
index 44d46fc..ba02141 100644
--- a/aslam_cv_common/include/aslam/common/memory.h
+++ b/aslam_cv_common/include/aslam/common/memory.h
@@ -49,6 +49,15 @@ inline std::shared_ptr<Type> aligned_shared(Arguments&&... arguments) {
 }
 
 namespace internal {
+template <typename Type>
+inline void* getAllocatedMemory(Type* object, std::true_type /*polymorphic*/) {
+  return dynamic_cast<void*>(object);
+}
+template <typename Type>
+inline void* getAllocatedMemory(Type* object, std::false_type) {
+  return object;
+}
+
 template <typename Type>
 struct aligned_delete {
   constexpr aligned_delete() noexcept = default;
@@ -61,10 +70,12 @@ struct aligned_delete {
   void operator()(Type* ptr) const {
     static_assert(sizeof(Type) > 0, "Can't delete pointer to incomplete type!");
     typedef typename std::remove_const<Type>::type TypeNonConst;
-    Eigen::aligned_allocator<TypeNonConst> allocator;
     TypeNonConst* object = const_cast<TypeNonConst*>(ptr);
+    // The object may be of a derived type that starts at another address.
+    void* memory = getAllocatedMemory(object, std::is_polymorphic<Type>());
+    Eigen::aligned_allocator<TypeNonConst> allocator;
     allocator.destroy(object);
-    allocator.deallocate(object, 1u /*num*/);
+    allocator.deallocate(static_cast<TypeNonConst*>(memory), 1u /*num*/);
   }
 };
 }  // namespace internal
-- 
2.43.0


From fe442fc0ecf82a2ba32a8051b3d6a637eec98980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 53/99] fix: negate the Jacobian of project4 for points with
 negative w

---
 aslam_cv_cameras/src/camera.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..dd68148 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -367,6 +367,10 @@ const ProjectionResult Camera::project4(
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
   out_jacobian->setZero();
   out_jacobian->topLeftCorner<2, 3>() = Je;
+  if (point_4d[3] < 0) {
+    // The point that was projected is the negated one.
+    *out_jacobian = -*out_jacobian;
+  }
 
   return ret;
 }
-- 
2.43.0


From 24c2b5cd8d7447efe4a2a93360c8f0575733bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 54/99] fix: project lidar points with the given external
 intrinsics

---
 .../include/aslam/cameras/camera-3d-lidar-inl.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index df58686..0b86259 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -23,19 +23,28 @@ const ProjectionResult Camera3DLidar::project3Functional(
     return ProjectionResult(ProjectionResult::Status::PROJECTION_INVALID);
   }
 
+  const ScalarType& horizontal_resolution =
+      intrinsics_external[Parameters::kHorizontalResolutionRad];
+  const ScalarType& vertical_resolution =
+      intrinsics_external[Parameters::kVerticalResolutionRad];
+  const ScalarType& vertical_center =
+      intrinsics_external[Parameters::kVerticalCenterRad];
+  const ScalarType& horizontal_center =
+      intrinsics_external[Parameters::kHorizontalCenterRad];
+
   const Eigen::Matrix<ScalarType, 3, 1> bearing_vector = point_3d.normalized();
 
   (*out_keypoint)[0] = (std::atan2(bearing_vector.x(), bearing_vector.z()) +
-                        horizontalCenter()) /
-                       horizontalResolution();
+                        horizontal_center) /
+                       horizontal_resolution;
 
   if ((*out_keypoint)[0] < 0.0) {
     (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
   }
 
   (*out_keypoint)[1] =
-      ((std::asin(bearing_vector.y()) + verticalCenter()) /
-       verticalResolution());
+      ((std::asin(bearing_vector.y()) + vertical_center) /
+       vertical_resolution);
 
   return evaluateProjectionResult(*out_keypoint, point_3d);
 }
-- 
2.43.0


From 5653acdd8947bd8b1322f2d2ff774fa15c32f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 55/99] fix: wrap lidar azimuths by a full turn instead of the
 image width

---
 aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index 0b86259..bad9787 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -39,7 +39,8 @@ const ProjectionResult Camera3DLidar::project3Functional(
                        horizontal_resolution;
 
   if ((*out_keypoint)[0] < 0.0) {
-    (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
+    // Wrap around by a full turn, which the image may only cover in part.
+    (*out_keypoint)[0] += 2.0 * M_PI / horizontal_resolution;
   }
 
   (*out_keypoint)[1] =
-- 
2.43.0


From 3196a27054ee3924e7bce2ec708b49b1a73af3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 56/99] fix: treat keypoints that are not a number as masked

---
 aslam_cv_cameras/include/aslam/cameras/camera.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera.h b/aslam_cv_cameras/include/aslam/cameras/camera.h
index 2bd9d89..034a0ba 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera.h
@@ -623,10 +623,8 @@ class Camera : public Sensor {
   /// Check if the keypoint is masked.
   inline bool isMasked(
       const Eigen::Ref<const Eigen::Vector2d>& keypoint) const {
-    return keypoint[0] < 0.0 ||
-           keypoint[0] >= static_cast<double>(image_width_) ||
-           keypoint[1] < 0.0 ||
-           keypoint[1] >= static_cast<double>(image_height_) ||
+    // The negated comparison also rejects keypoints that are not a number.
+    return !isKeypointVisible(keypoint) ||
            (!mask_.empty() && mask_.at<uint8_t>(
                                   static_cast<int>(keypoint[1]),
                                   static_cast<int>(keypoint[0])) == 0);
-- 
2.43.0


From 783357057c414e065d2d51441f647a4024ee3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 57/99] fix: define the point Jacobian of invalid unified
 projections

---
 aslam_cv_cameras/src/camera-unified-projection.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_cameras/src/camera-unified-projection.cc b/aslam_cv_cameras/src/camera-unified-projection.cc
index 16202c4..5609634 100644
--- a/aslam_cv_cameras/src/camera-unified-projection.cc
+++ b/aslam_cv_cameras/src/camera-unified-projection.cc
@@ -113,6 +113,9 @@ const ProjectionResult UnifiedProjectionCamera::project3Functional(
   // Check if point will lead to a valid projection
   const bool valid_proj = z > -(fov_parameter(xi) * d);
   if (!valid_proj) {
+    if (out_jacobian_point) {
+      out_jacobian_point->setZero();
+    }
     if (out_jacobian_intrinsics) {
       out_jacobian_intrinsics->setZero(2, kNumOfParams);
     }
-- 
2.43.0


From e0a45c65556614c4a6c9f3775583d38d9df734b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 58/99] fix: default lidar cameras have four intrinsics

---
 aslam_cv_cameras/src/camera-3d-lidar.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera-3d-lidar.cc b/aslam_cv_cameras/src/camera-3d-lidar.cc
index 97e8c95..9dc49aa 100644
--- a/aslam_cv_cameras/src/camera-3d-lidar.cc
+++ b/aslam_cv_cameras/src/camera-3d-lidar.cc
@@ -15,7 +15,7 @@ std::ostream& operator<<(std::ostream& out, const Camera3DLidar& camera) {
 }
 
 Camera3DLidar::Camera3DLidar()
-    : Base(Eigen::Vector3d::Zero(), 0, 0, Camera::Type::kLidar3D) {}
+    : Base(Eigen::Vector4d::Zero(), 0, 0, Camera::Type::kLidar3D) {}
 
 Camera3DLidar::Camera3DLidar(
     const Eigen::VectorXd& intrinsics, const uint32_t image_width,
-- 
2.43.0


From 60766df8c8bfb3615d9c0d6c693f9de3ecd03987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 59/99] fix: index the cameras of a rig without distortion by
 their new ids

---
 aslam_cv_cameras/src/ncamera.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3b9ce0..120e573 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -342,6 +342,8 @@ aslam::NCamera::Ptr NCamera::cloneRigWithoutDistortion() const {
   aslam::NCameraId ncam_id;
   generateId(&ncam_id);
   rig_without_distortion->setId(ncam_id);
+  // The cameras have to be found under their new ids.
+  rig_without_distortion->initInternal();
   return rig_without_distortion;
 }
 
-- 
2.43.0


From 2ff355b0dec346a1b06f138d1ec15594f5e705cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 60/99] fix: replace the cameras of a rig when it is
 deserialized

---
 aslam_cv_cameras/src/ncamera.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index 120e573..e1539d8 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -97,6 +97,12 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  // Drop what the rig contained before.
+  cameras_.clear();
+  T_C_B_.clear();
+  id_to_index_.clear();
+  has_T_G_B_fixed_localization_covariance_ = false;
+
   if (yaml_node["T_G_B_fixed_covariance"]) {
     CHECK(YAML::safeGet(
         yaml_node, "T_G_B_fixed_covariance",
-- 
2.43.0


From 7910bae152b95a96706efd52111096f10287a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 61/99] fix: the longest shutter delay of a lidar spans its
 columns

---
 aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
index cdc1ea9..9c1e5f8 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
@@ -267,6 +267,12 @@ class Camera3DLidar : public aslam::Cloneable<Camera, Camera3DLidar> {
     return this->imageWidth() * line_delay_nanoseconds_;
   }
 
+  /// \brief The amount of time elapsed between the first column of the image
+  /// and the last column of the image, as columns are scanned one by one.
+  int64_t maxRollingShutterDelayNanoSeconds() const {
+    return this->imageWidth() * line_delay_nanoseconds_;
+  }
+
   /// \brief returns the number of lines, this is either the number of columns
   /// or rows or 1 in case of a global shutter camera.
   uint32_t getNumberOfLines() const {
-- 
2.43.0


From 769ff514d7d2c343487f9f0739eb62c3ffadf3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 62/99] fix: refuse keypoint indices beyond the range of int

---
 aslam_cv_frames/src/visual-frame.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 5dce032..1692a07 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -172,44 +172,44 @@ const Eigen::Block<const Eigen::Matrix2Xd, 2, 1>
 VisualFrame::getKeypointMeasurement(size_t index) const {
   const Eigen::Matrix2Xd& keypoints =
       aslam::channels::get_VISUAL_KEYPOINT_MEASUREMENTS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), keypoints.cols());
+  CHECK_LT(index, static_cast<size_t>(keypoints.cols()));
   return keypoints.block<2, 1>(0, index);
 }
 double VisualFrame::getKeypointMeasurementUncertainty(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_MEASUREMENT_UNCERTAINTIES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointOrientation(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_ORIENTATIONS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointScore(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_SCORES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 double VisualFrame::getKeypointScale(size_t index) const {
   const Eigen::VectorXd& data =
       aslam::channels::get_VISUAL_KEYPOINT_SCALES_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 const Eigen::Block<const Eigen::Matrix3Xd, 3, 1>
 VisualFrame::getKeypoint3DPosition(size_t index) const {
   const Eigen::Matrix3Xd& data =
       aslam::channels::get_VISUAL_KEYPOINT_3D_POSITIONS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.cols());
+  CHECK_LT(index, static_cast<size_t>(data.cols()));
   return data.block<3, 1>(0, index);
 }
 int VisualFrame::getKeypointTimeOffset(size_t index) const {
   const Eigen::VectorXi& data =
       aslam::channels::get_VISUAL_KEYPOINT_TIME_OFFSETS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), data.rows());
+  CHECK_LT(index, static_cast<size_t>(data.rows()));
   return data.coeff(index, 0);
 }
 
@@ -236,7 +236,7 @@ const unsigned char* VisualFrame::getDescriptor(size_t index) const {
 int VisualFrame::getTrackId(size_t index) const {
   const Eigen::VectorXi& track_ids =
       aslam::channels::get_TRACK_IDS_Data(channels_);
-  CHECK_LT(static_cast<int>(index), track_ids.rows());
+  CHECK_LT(index, static_cast<size_t>(track_ids.rows()));
   return track_ids.coeff(index, 0);
 }
 
-- 
2.43.0


From 091349ee98a1de7d94de55becb31bfb705d4cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 63/99] fix: discard the positions and time offsets of
 untracked keypoints too

---
 aslam_cv_frames/src/visual-frame.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 1692a07..809b67b 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -606,6 +606,14 @@ void VisualFrame::discardUntrackedObservations(
     common::stl_helpers::eraseIndicesFromContainer(
         *discarded_indices, original_count, getKeypointScalesMutable());
   }
+  if (hasKeypoint3DPositions()) {
+    common::stl_helpers::eraseIndicesFromContainer(
+        *discarded_indices, original_count, getKeypoint3DPositionsMutable());
+  }
+  if (hasKeypointTimeOffsets()) {
+    common::stl_helpers::eraseIndicesFromContainer(
+        *discarded_indices, original_count, getKeypointTimeOffsetsMutable());
+  }
   if (hasDescriptors()) {
     common::stl_helpers::OneDimensionAdapter<unsigned char,
     common::stl_helpers::kColumns> adapter(getDescriptorsMutable());
-- 
2.43.0


From d2cdafbec29f4b7519f2036cc41b2fafe9727b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 64/99] fix: discard untracked descriptors from all blocks

---
 aslam_cv_frames/src/visual-frame.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 809b67b..61686a2 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -615,10 +615,25 @@ void VisualFrame::discardUntrackedObservations(
         *discarded_indices, original_count, getKeypointTimeOffsetsMutable());
   }
   if (hasDescriptors()) {
-    common::stl_helpers::OneDimensionAdapter<unsigned char,
-    common::stl_helpers::kColumns> adapter(getDescriptorsMutable());
-    common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, &adapter);
+    CHECK_EQ(getNumDescriptors(), static_cast<size_t>(original_count));
+    size_t block_start = 0u;
+    std::vector<size_t>::const_iterator it = discarded_indices->begin();
+    for (DescriptorsT& descriptors :
+         aslam::channels::get_DESCRIPTORS_Data(channels_)) {
+      const size_t block_size = descriptors.cols();
+      std::vector<size_t> discarded_in_block;
+      for (; it != discarded_indices->end() && *it < block_start + block_size;
+           ++it) {
+        discarded_in_block.emplace_back(*it - block_start);
+      }
+      if (!discarded_in_block.empty()) {
+        common::stl_helpers::OneDimensionAdapter<
+            unsigned char, common::stl_helpers::kColumns> adapter(&descriptors);
+        common::stl_helpers::eraseIndicesFromContainer(
+            discarded_in_block, block_size, &adapter);
+      }
+      block_start += block_size;
+    }
   }
   common::stl_helpers::eraseIndicesFromContainer(
       *discarded_indices, original_count, getTrackIdsMutable());
-- 
2.43.0


From 2203398f696be200bde019cb2537bf32e72aef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 65/99] fix: clear all descriptor blocks, 3D positions and time
 offsets with the keypoints

---
 aslam_cv_frames/src/visual-frame.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 61686a2..852d8b6 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -450,6 +450,16 @@ void VisualFrame::clearKeypointChannels() {
   setKeypointOrientations(zero_vector_double);
   setKeypointScores(zero_vector_double);
   setKeypointScales(zero_vector_double);
+  if (hasKeypoint3DPositions()) {
+    setKeypoint3DPositions(Eigen::Matrix3Xd());
+  }
+  if (hasKeypointTimeOffsets()) {
+    setKeypointTimeOffsets(zero_vector_int);
+  }
+  if (hasDescriptors()) {
+    aslam::channels::get_DESCRIPTORS_Data(channels_).clear();
+    aslam::channels::get_DESCRIPTOR_TYPES_Data(channels_).resize(0);
+  }
   setDescriptors(aslam::VisualFrame::DescriptorsT());
 }
 
-- 
2.43.0


From 43cb6e1f8c322fe059dedec3364334d96354537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 66/99] fix: count no keypoints of a type in a frame without
 descriptors

---
 aslam_cv_frames/src/visual-frame.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 852d8b6..8c2a472 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -884,15 +884,12 @@ size_t VisualFrame::getDescriptorTypeBlock(int descriptor_type) const {
 }
 
 size_t VisualFrame::getNumKeypointMeasurementsOfType(int descriptor_type) const {
-  if (!hasKeypointMeasurements()) {
+  if (!hasKeypointMeasurements() || !hasDescriptorType(descriptor_type)) {
     return 0u;
   }
 
   const std::vector<VisualFrame::DescriptorsT>& descriptors =
       aslam::channels::get_DESCRIPTORS_Data(channels_);
-  if (!hasDescriptorType(descriptor_type)) {
-    return 0u;
-  }
   const size_t block = getDescriptorTypeBlock(descriptor_type);
   CHECK_LT(block, descriptors.size());
   return descriptors[block].cols();
-- 
2.43.0


From 76211e6b1d2e9d46659c958d3046e7e17ba5b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 67/99] fix: refuse bearing vectors of the index past the last
 keypoint

---
 aslam_cv_frames/src/visual-frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 8c2a472..8e670be 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -553,7 +553,7 @@ Eigen::Matrix3Xd VisualFrame::getNormalizedBearingVectors(
 
   size_t list_idx = 0;
   for (const size_t keypoint_idx : keypoint_indices) {
-    CHECK_LE(keypoint_idx, num_keypoints);
+    CHECK_LT(keypoint_idx, num_keypoints);
     keypoints_reduced.col(list_idx++) = keypoints.col(keypoint_idx);
   }
 
-- 
2.43.0


From 7b64992eeebbb8b5f327cb84c0b72eaaf6f88a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 68/99] fix: compare frame sets whose frames are not all set

---
 aslam_cv_frames/src/visual-nframe.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 09ab075..d04c1de 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -199,7 +199,7 @@ bool VisualNFrame::operator==(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= *CHECK_NOTNULL(frames_[i].get()) == *CHECK_NOTNULL(other.frames_[i].get());
+      same &= aslam::checkSharedEqual(frames_[i], other.frames_[i]);
     }
   }
   return same;
@@ -211,8 +211,11 @@ bool VisualNFrame::compareWithoutCameraSystem(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= CHECK_NOTNULL(frames_[i].get())->compareWithoutCameraGeometry(
-          *CHECK_NOTNULL(other.frames_[i].get()));
+      if (frames_[i] && other.frames_[i]) {
+        same &= frames_[i]->compareWithoutCameraGeometry(*other.frames_[i]);
+      } else {
+        same &= !frames_[i] && !other.frames_[i];
+      }
     }
   }
   return same;
-- 
2.43.0


From 8b26e387a6f2249cbf60c83300ef4f8462e863e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 69/99] fix: report the time span of frame sets without a
 camera rig

---
 aslam_cv_frames/src/visual-nframe.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index d04c1de..2d0f02b 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -167,7 +167,7 @@ bool VisualNFrame::isFrameValid(size_t frame_index) const {
 
 int64_t VisualNFrame::getMinTimestampNanoseconds() const {
   int64_t min_timestamp_nanoseconds = std::numeric_limits<int64_t>::max();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
       if (timestamp_frame_nanoseconds < min_timestamp_nanoseconds)
@@ -181,7 +181,7 @@ int64_t VisualNFrame::getMinTimestampNanoseconds() const {
 
 int64_t VisualNFrame::getMaxTimestampNanoseconds() const {
   int64_t max_timestamp_nanoseconds = aslam::time::getInvalidTime();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
       if (timestamp_frame_nanoseconds > max_timestamp_nanoseconds)
-- 
2.43.0


From e1fe1cbab4bcb4ef2845d4ea23e70dc39e09883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 70/99] fix: refuse the earliest time of a frame set without
 frames

---
 aslam_cv_frames/src/visual-nframe.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 2d0f02b..078466c 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -174,6 +174,8 @@ int64_t VisualNFrame::getMinTimestampNanoseconds() const {
         min_timestamp_nanoseconds = timestamp_frame_nanoseconds;
     }
   }
+  CHECK_NE(min_timestamp_nanoseconds, std::numeric_limits<int64_t>::max())
+      << "No frame is set.";
   CHECK(aslam::time::isValidTime(min_timestamp_nanoseconds)) << "Time " << min_timestamp_nanoseconds
       << "[ns] is invalid.";
   return min_timestamp_nanoseconds;
-- 
2.43.0


From 047c8de8a59f8e55c703820406ce0908fcc59f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 71/99] fix: extent of feature tracks at negative coordinates

---
 aslam_cv_frames/include/aslam/frames/feature-track.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/include/aslam/frames/feature-track.h b/aslam_cv_frames/include/aslam/frames/feature-track.h
index 3e6a8f0..fef1390 100644
--- a/aslam_cv_frames/include/aslam/frames/feature-track.h
+++ b/aslam_cv_frames/include/aslam/frames/feature-track.h
@@ -25,9 +25,9 @@ class FeatureTrack {
 
   inline double getDiagonalSqOfDisparityBoundingBox() const {
     double u_min = std::numeric_limits<double>::max();
-    double u_max = std::numeric_limits<double>::min();
+    double u_max = std::numeric_limits<double>::lowest();
     double v_min = std::numeric_limits<double>::max();
-    double v_max = std::numeric_limits<double>::min();
+    double v_max = std::numeric_limits<double>::lowest();
 
     for (const KeypointIdentifier& kid : getKeypointIdentifiers()) {
       const Eigen::Block<const Eigen::Matrix2Xd, 2, 1> keypoint = kid.getKeypointMeasurement();
-- 
2.43.0


From 19d656c0431c2e886f21dc00d4d6469953f5dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 72/99] fix: compare the rank without wrapping around when
 triangulating

---
 aslam_cv_triangulation/src/triangulation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 65d117b..036d8d0 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -49,7 +49,7 @@ TriangulationResult linearTriangulateFromNViews(
   qr.setThreshold(kRankLossTolerance);
   const size_t rank = qr.rank();
 
-  if ((rank - measurements_normalized.size()) < 3) {
+  if (rank < measurements_normalized.size() + 3u) {
     return TriangulationResult(TriangulationResult::UNOBSERVABLE);
   }
 
@@ -143,7 +143,7 @@ TriangulationResult linearTriangulateFromNViewsMultiCam(
   static constexpr double kRankLossTolerance = 0.001;
   qr.setThreshold(kRankLossTolerance);
   const size_t rank = qr.rank();
-  if ((rank - measurements_normalized.size()) < 3) {
+  if (rank < measurements_normalized.size() + 3u) {
     return TriangulationResult(TriangulationResult::UNOBSERVABLE);
   }
 
-- 
2.43.0


From 2a0769e4227334e6840987a1a6d72984ebfdd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 73/99] fix: use all observations when triangulating tracks
 fast

---
 aslam_cv_triangulation/src/triangulation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 036d8d0..2de51c5 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -346,6 +346,7 @@ TriangulationResult fastTriangulateFeatureTrack(
 
     G_bearing_vectors.col(index) = T_W_C.getRotationMatrix() * C_ray;
     p_G_C_vector.col(index) = T_W_C.getPosition();
+    ++index;
   }
 
   VLOG(200) << "Assembled triangulation data.";
-- 
2.43.0


From dde624115700719fc8e3ca731072c94863e5677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 74/99] fix: use the position of the first camera when
 triangulating iteratively

---
 aslam_cv_triangulation/src/triangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 2de51c5..872df80 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -182,7 +182,7 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   // Rotation and position of n-th camera in i-th camera frame.
   const aslam::Transformation T_Cn_G = T_B_C.inverse() * T_G_B[n].inverse();
   const Eigen::Matrix3d& R_Cn_G = T_Cn_G.getRotationMatrix();
-  const Eigen::Vector3d& p_G_Cn = T_Cn_G.getPosition();
+  const Eigen::Vector3d p_G_Cn = T_Cn_G.inverse().getPosition();
 
   // Cache matrices that are constant for every iteration.
   Aligned<std::vector, Eigen::Matrix3d> R_Ci_Cn;
-- 
2.43.0


From c5cbc6367d6f00f3524ecd09f992ca781c40ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 75/99] fix: triangulate tracks that several cameras observed

---
 aslam_cv_triangulation/src/triangulation.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 872df80..9fcdbb7 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -274,11 +274,13 @@ TriangulationResult triangulateFeatureTrack(
 
   const aslam::Camera::ConstPtr& camera = track.getFirstKeypointIdentifier().getCamera();
   CHECK(camera);
-  aslam::Transformation T_B_C = track.getFirstKeypointIdentifier().get_T_C_B().inverse();
 
   // Get the normalized measurements for all observations on the track.
   Aligned<std::vector, Eigen::Vector2d> normalized_measurements;
   normalized_measurements.reserve(track_length);
+  // The observations on a track can stem from different cameras.
+  aslam::TransformationVector T_W_Cs;
+  T_W_Cs.reserve(track_length);
 
   for (const aslam::KeypointIdentifier& keypoint_on_track : track.getKeypointIdentifiers()) {
     const aslam::Camera::ConstPtr& camera = keypoint_on_track.getCamera();
@@ -291,6 +293,7 @@ TriangulationResult triangulateFeatureTrack(
     camera->backProject3(keypoint_measurement, &C_ray);
     Eigen::Vector2d normalized_measurement = C_ray.head<2>() / C_ray[2];
     normalized_measurements.push_back(normalized_measurement);
+    T_W_Cs.push_back(T_W_Bs[T_W_Cs.size()] * keypoint_on_track.get_T_C_B().inverse());
   }
 
   VLOG(200) << "Assembled triangulation data.";
@@ -300,8 +303,8 @@ TriangulationResult triangulateFeatureTrack(
   CHECK_EQ(track_length, T_W_Bs.size());
   aslam::TriangulationResult triangulation_result = linearTriangulateFromNViews(
                                                         normalized_measurements,
-                                                        T_W_Bs,
-                                                        T_B_C,
+                                                        T_W_Cs,
+                                                        aslam::Transformation(),
                                                         W_landmark);
 
   VLOG(200) << "Triangulation returned the following result:" << std::endl
-- 
2.43.0


From cbe06a5492140dbaa8f58cc7654e63b342516269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 76/99] fix: report unobservable points when triangulating
 iteratively

---
 aslam_cv_triangulation/src/triangulation.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aslam_cv_triangulation/src/triangulation.cc b/aslam_cv_triangulation/src/triangulation.cc
index 9fcdbb7..1398fbd 100644
--- a/aslam_cv_triangulation/src/triangulation.cc
+++ b/aslam_cv_triangulation/src/triangulation.cc
@@ -184,6 +184,20 @@ TriangulationResult iterativeGaussNewtonTriangulateFromNViews(
   const Eigen::Matrix3d& R_Cn_G = T_Cn_G.getRotationMatrix();
   const Eigen::Vector3d p_G_Cn = T_Cn_G.inverse().getPosition();
 
+  // The depth is not observable if all rays are parallel.
+  Eigen::Matrix3d ray_information = Eigen::Matrix3d::Zero();
+  for (size_t i = 0; i < measurements_normalized.size(); ++i) {
+    const Eigen::Vector3d G_ray = T_G_B[i].getRotationMatrix() * T_B_C.getRotationMatrix() *
+        measurements_normalized[i].homogeneous().normalized();
+    ray_information += Eigen::Matrix3d::Identity() - G_ray * G_ray.transpose();
+  }
+  Eigen::ColPivHouseholderQR<Eigen::Matrix3d> qr = ray_information.colPivHouseholderQr();
+  static constexpr double kRankLossTolerance = 1e-5;
+  qr.setThreshold(kRankLossTolerance);
+  if (qr.rank() < 3) {
+    return TriangulationResult(TriangulationResult::UNOBSERVABLE);
+  }
+
   // Cache matrices that are constant for every iteration.
   Aligned<std::vector, Eigen::Matrix3d> R_Ci_Cn;
   Aligned<std::vector, Eigen::Vector3d> p_Ci_Cn;
-- 
2.43.0


From d33e756935e5f945653a27ecab3329857077c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 77/99] fix: define a matcher function of the header inline

---
 aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 64fbe24..0ec2e06 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -197,7 +197,7 @@ class GyroTwoFrameMatcher {
   static constexpr size_t kMaxNumInferiorIterations = 3u;
 };
 
-void GyroTwoFrameMatcher::getKeypointIteratorsInWindow(
+inline void GyroTwoFrameMatcher::getKeypointIteratorsInWindow(
     const Eigen::Vector2d& predicted_keypoint_position,
     const int window_half_side_length_px,
     KeyPointIterator* it_keypoints_begin,
-- 
2.43.0


From 57c2a744b242ecfc110f74bd168cf9f403bddc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 78/99] fix: predict no keypoints for frames without keypoints

---
 aslam_cv_matcher/src/match-helpers.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_matcher/src/match-helpers.cc b/aslam_cv_matcher/src/match-helpers.cc
index bbd6066..8cfa0ef 100644
--- a/aslam_cv_matcher/src/match-helpers.cc
+++ b/aslam_cv_matcher/src/match-helpers.cc
@@ -54,6 +54,7 @@ void predictKeypointsByRotation(const VisualFrame& frame_k,
       frame_k.getKeypointMeasurementsOfType(descriptor_type);
 
   if (keypoints_k.cols() == 0u) {
+    predicted_keypoints_kp1->resize(Eigen::NoChange, 0);
     return;
   }
 
-- 
2.43.0


From d2ce01b7ea936b06cbe345baf6edfa219b8b7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 79/99] fix: match descriptors of several sizes in one process

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 05d81e7..2efcad9 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -140,7 +140,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
   bool passed_ratio_test = false;
   int n_processed_corners = 0;
   KeyPointIterator it_best;
-  const static unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
+  const unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
   int best_score = static_cast<int>(
       kDescriptorSizeBits * kMatchingThresholdBitsRatioRelaxed);
   unsigned int distance_best = kDescriptorSizeBits + 1;
-- 
2.43.0


From 7f2992d4f4e40274f10a6886370584826a8638ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 80/99] fix: match keypoints when one lies above the image

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 2efcad9..cbe7132 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -101,7 +101,7 @@ void GyroTwoFrameMatcher::initialize() {
   int v = 0;
   for (size_t y = 0u; y < kImageHeight; ++y) {
     while (v < kNumPointsKp1 &&
-        y > static_cast<size_t>(keypoints_kp1_sorted_by_y_[v].measurement(1))) {
+        keypoints_kp1_sorted_by_y_[v].measurement(1) < static_cast<double>(y)) {
       ++v;
     }
     corner_row_LUT_.push_back(v);
-- 
2.43.0


From 6d8c56965a9e903d21d0b9c4671037f88f324aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 81/99] fix: match keypoints in the last row of the image

---
 .../include/aslam/matcher/gyro-two-frame-matcher.h          | 4 ++--
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc              | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 0ec2e06..1ccb76f 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -209,7 +209,7 @@ CHECK_GT(window_half_side_length_px, 0);
   // Compute search area for LUT iterators row-wise.
   int LUT_index_top = clamp(0, kImageHeight - 1, static_cast<int>(
       predicted_keypoint_position(1) + 0.5 - window_half_side_length_px));
-  int LUT_index_bottom = clamp(0, kImageHeight - 1, static_cast<int>(
+  int LUT_index_bottom = clamp(0, kImageHeight, static_cast<int>(
       predicted_keypoint_position(1) + 0.5 + window_half_side_length_px));
 
   *it_keypoints_begin = keypoints_kp1_sorted_by_y_.begin() + corner_row_LUT_[LUT_index_top];
@@ -219,7 +219,7 @@ CHECK_GT(window_half_side_length_px, 0);
   CHECK_GE(LUT_index_bottom, 0);
   CHECK_GE(LUT_index_top, 0);
   CHECK_LT(LUT_index_top, static_cast<int>(kImageHeight));
-  CHECK_LT(LUT_index_bottom, static_cast<int>(kImageHeight));
+  CHECK_LE(LUT_index_bottom, static_cast<int>(kImageHeight));
 }
 
 inline int GyroTwoFrameMatcher::clamp(
diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index cbe7132..3f05396 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -60,7 +60,7 @@ GyroTwoFrameMatcher::GyroTwoFrameMatcher(
   keypoints_kp1_sorted_by_y_.reserve(kNumPointsKp1);
   descriptors_k_wrapped_.reserve(kNumPointsK);
   matches_kp1_k_->reserve(kNumPointsK);
-  corner_row_LUT_.reserve(kImageHeight);
+  corner_row_LUT_.reserve(kImageHeight + 1u);
 }
 
 void GyroTwoFrameMatcher::initialize() {
@@ -99,14 +99,14 @@ void GyroTwoFrameMatcher::initialize() {
   // TODO(magehrig):  Sort by y if image height >= image width,
   //                  otherwise sort by x.
   int v = 0;
-  for (size_t y = 0u; y < kImageHeight; ++y) {
+  for (size_t y = 0u; y <= kImageHeight; ++y) {
     while (v < kNumPointsKp1 &&
         keypoints_kp1_sorted_by_y_[v].measurement(1) < static_cast<double>(y)) {
       ++v;
     }
     corner_row_LUT_.push_back(v);
   }
-  CHECK_EQ(corner_row_LUT_.size(), kImageHeight);
+  CHECK_EQ(corner_row_LUT_.size(), kImageHeight + 1u);
 }
 
 void GyroTwoFrameMatcher::match() {
-- 
2.43.0


From 1233c4d67de2045c4816bd4edffacbb528eb9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 82/99] fix: match frames in which descriptors differ in all
 bits

---
 aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 1ccb76f..88abe2d 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -79,7 +79,7 @@ class GyroTwoFrameMatcher {
     MatchData() = default;
     void addCandidate(
         const KeyPointIterator keypoint_iterator_kp1, const double matching_score) {
-      CHECK_GT(matching_score, 0.0);
+      CHECK_GE(matching_score, 0.0);
       CHECK_LE(matching_score, 1.0);
       keypoint_match_candidates_kp1.push_back(keypoint_iterator_kp1);
       match_candidate_matching_scores.push_back(matching_score);
-- 
2.43.0


From 95e26d7bd3ee39a692d35b279b724465da5a019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 83/99] fix: apply the ratio test to candidates seen before the
 best one

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 3f05396..96928a4 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -176,7 +176,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
     int current_score = kDescriptorSizeBits - distance;
     if (current_score > best_score) {
       best_score = current_score;
-      distance_second_best = distance_best;
+      distance_second_best = std::min(distance_second_best, distance_best);
       distance_best = distance;
       it_best = it;
       found = true;
@@ -220,7 +220,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
       int current_score = kDescriptorSizeBits - distance;
       if (current_score > best_score) {
         best_score = current_score;
-        distance_second_best = distance_best;
+        distance_second_best = std::min(distance_second_best, distance_best);
         distance_best = distance;
         it_best = it;
         found = true;
-- 
2.43.0


From dc3c1fa4be89fc56ce73d10a2a53f2c373d168df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 84/99] fix: do not write beyond the descriptors of the frame
 when appending descriptors of another size

---
 aslam_cv_tracker/src/tracking-helpers.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_tracker/src/tracking-helpers.cc b/aslam_cv_tracker/src/tracking-helpers.cc
index 5425852..cf0de56 100644
--- a/aslam_cv_tracker/src/tracking-helpers.cc
+++ b/aslam_cv_tracker/src/tracking-helpers.cc
@@ -84,6 +84,9 @@ void insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(
   const size_t kInitialSize = frame->getTrackIds().size();
   const size_t kAdditionalSize = new_cv_keypoints.size();
   const size_t extended_size = kInitialSize + kAdditionalSize;
+  CHECK(kInitialSize == 0u || kAdditionalSize == 0u ||
+        frame->getDescriptors().rows() == new_cv_descriptors.cols)
+      << "The new descriptors differ in size from those of the frame.";
 
   Eigen::Matrix2Xd* const keypoint_measurements =
       frame->getKeypointMeasurementsMutable();
@@ -106,7 +109,12 @@ void insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(
   keypointi_scores->conservativeResize(extended_size);
   track_ids->conservativeResize(extended_size);
   keypoint_uncertainties->conservativeResize(extended_size);
-  descriptors->conservativeResize(Eigen::NoChange, extended_size);
+  if (kInitialSize == 0u) {
+    // Without descriptors there is no descriptor size to adhere to.
+    descriptors->resize(new_cv_descriptors.cols, extended_size);
+  } else {
+    descriptors->conservativeResize(Eigen::NoChange, extended_size);
+  }
 
   Eigen::Matrix2Xd new_keypoint_measurements(2, kAdditionalSize);
   Eigen::VectorXd new_keypoint_orientations(kAdditionalSize);
-- 
2.43.0


From 0270a852abe3443a140f3b06e2b120452cd5c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 85/99] fix: count the match which starts a track in the status
 track length

---
 aslam_cv_tracker/src/feature-tracker-gyro.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aslam_cv_tracker/src/feature-tracker-gyro.cc b/aslam_cv_tracker/src/feature-tracker-gyro.cc
index 211bb5b..33d66bb 100644
--- a/aslam_cv_tracker/src/feature-tracker-gyro.cc
+++ b/aslam_cv_tracker/src/feature-tracker-gyro.cc
@@ -464,6 +464,15 @@ void GyroTracker::computeStatusTrackLengthOfFrameK(
   }
   CHECK_EQ(feature_status_k_km1_.size(), 2u);
 
+  // A keypoint with a track ID has been matched to frame (k-1). If the stored
+  // track IDs of frame (k-1) do not contain this ID, the track has started
+  // there after its IDs were stored.
+  for (int index_k = 0; index_k < kNumPointsK; ++index_k) {
+    if (track_ids_k_km1_[0](index_k) >= 0) {
+      (*status_track_length_k)[index_k] = 1u;
+    }
+  }
+
   for (const TrackedMatch& match: tracked_matches) {
     const int match_index_k = match.first;
     const int match_index_km1 = match.second;
-- 
2.43.0


From c8d8097049775eaaaf524b7dfbb8802ceb58663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 86/99] fix: refuse images of the camera index beyond the last
 one

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index a6b0998..341372a 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -214,7 +214,7 @@ size_t VisualNPipeline::getNumFramesProcessing() const {
 
 void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
                            int64_t timestamp_nanoseconds) {
-  CHECK_LE(camera_index, pipelines_.size());
+  CHECK_LT(camera_index, pipelines_.size());
   std::shared_ptr<VisualFrame> frame;
   frame = pipelines_[camera_index]->processImage(image, timestamp_nanoseconds);
 
-- 
2.43.0


From 64457136c7c60acb1d1c1090d80f1b9b6c8bae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 87/99] fix: do not lose the notification of a shutdown

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index 341372a..bfa86f7 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -53,7 +53,12 @@ VisualNPipeline::~VisualNPipeline() {
 }
 
 void VisualNPipeline::shutdown() {
-  shutdown_ = true;
+  {
+    // A thread must not miss the notification between checking the flag and
+    // starting to wait.
+    std::lock_guard<std::mutex> lock(mutex_);
+    shutdown_ = true;
+  }
   condition_not_empty_.notify_all();
   condition_not_full_.notify_all();
   thread_pool_->stop();
-- 
2.43.0


From 2e6dadd10bb23bd8286c38329bbaaf8ebecceedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 88/99] fix: do not drop complete nframes together with
 incomplete ones

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index bfa86f7..8429d40 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -310,12 +310,19 @@ void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
     // Now drop all incomplete nframes up to delete_upto_including_index. All frames below this
     // index will probably never complete as one camera in the rig dropped an image.
     if (delete_upto_including_index >= 0) {
-      int num_nframes_to_delete = delete_upto_including_index + 1;
+      int num_nframes_to_remove = delete_upto_including_index + 1;
+      int num_nframes_dropped = 0;
       auto it_processing = processing_.begin();
-      while (it_processing != processing_.end() && num_nframes_to_delete-- > 0) {
+      while (it_processing != processing_.end() && num_nframes_to_remove-- > 0) {
+        if (it_processing->second->areAllFramesSet()) {
+          completed_.insert(*it_processing);
+          condition_not_empty_.notify_all();
+        } else {
+          ++num_nframes_dropped;
+        }
         it_processing = processing_.erase(it_processing);
       }
-      LOG(WARNING) << "Detected frame drop: removing " << delete_upto_including_index + 1
+      LOG(WARNING) << "Detected frame drop: removing " << num_nframes_dropped
                    << " nframes from the queue.";
     }
 
-- 
2.43.0


From 140b96edd827046781f58958ed651be90b052778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 89/99] fix: do not mirror the rays behind a camera when
 building undistortion maps

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index fc9cb32..f075396 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -192,7 +192,6 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       Eigen::Vector2d keypoint_dist;
       Eigen::Vector3d point_3d;
       output_camera.backProject3(keypoint, &point_3d);
-      point_3d /= point_3d[2];
       input_camera.project3(point_3d, &keypoint_dist);
 
       const double& u = keypoint_dist[0];
-- 
2.43.0


From b5657a5502e0f3b25c8310b0464bfffc3b8beee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 90/99] fix: leave pixels the input camera does not see out of
 undistorted images

---
 .../include/aslam/common/undistort-helpers.h        | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index f075396..7ca0b8b 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -2,6 +2,7 @@
 #define ASLAM_UNDISTORT_HELPERS_H_
 
 #include <algorithm>
+#include <limits>
 
 #include <Eigen/Dense>
 #include <glog/logging.h>
@@ -191,8 +192,16 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       const Eigen::Vector2d keypoint(j, i);
       Eigen::Vector2d keypoint_dist;
       Eigen::Vector3d point_3d;
-      output_camera.backProject3(keypoint, &point_3d);
-      input_camera.project3(point_3d, &keypoint_dist);
+      bool has_source = output_camera.backProject3(keypoint, &point_3d);
+      if (has_source) {
+        const ProjectionResult result = input_camera.project3(point_3d, &keypoint_dist);
+        has_source = result.isKeypointVisible() ||
+            result == ProjectionResult::Status::KEYPOINT_OUTSIDE_IMAGE_BOX;
+      }
+      if (!has_source) {
+        // The input camera does not see this pixel: sample outside of the input image.
+        keypoint_dist.setConstant(std::numeric_limits<short>::min());
+      }
 
       const double& u = keypoint_dist[0];
       const double& v = keypoint_dist[1];
-- 
2.43.0


From 7a4327aeb2e1b4e2bb25b0cad9410029867609f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 91/99] fix: do not wrap sources far outside of the image
 around in fixed-point undistortion maps

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index 7ca0b8b..1b7d47d 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -210,8 +210,8 @@ void buildUndistortMap(const InputDerivedCameraType& input_camera,
       if (map_type == CV_16SC2) {
         int iu = cv::saturate_cast<int>(u * cv::INTER_TAB_SIZE);
         int iv = cv::saturate_cast<int>(v * cv::INTER_TAB_SIZE);
-        m1[j * 2] = (short) (iu >> cv::INTER_BITS);
-        m1[j * 2 + 1] = (short) (iv >> cv::INTER_BITS);
+        m1[j * 2] = cv::saturate_cast<short>(iu >> cv::INTER_BITS);
+        m1[j * 2 + 1] = cv::saturate_cast<short>(iv >> cv::INTER_BITS);
         m2[j] = (ushort) ((iv & (cv::INTER_TAB_SIZE - 1)) * cv::INTER_TAB_SIZE
             + (iu & (cv::INTER_TAB_SIZE - 1)));
       } else if (map_type == CV_32FC1) {
-- 
2.43.0


From 1947093503706a23f9c004264083560458c9b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 92/99] fix: undistort to the nearest pixel with nearest
 neighbor interpolation

---
 .../include/aslam/pipeline/undistorter-mapped-inl.h        | 7 ++++++-
 aslam_cv_pipeline/src/undistorter-mapped.cc                | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped-inl.h b/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped-inl.h
index 8fb60fa..1ba6f34 100644
--- a/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped-inl.h
+++ b/aslam_cv_pipeline/include/aslam/pipeline/undistorter-mapped-inl.h
@@ -85,8 +85,13 @@ inline std::unique_ptr<MappedUndistorter> createMappedUndistorter(
   }
 
   cv::Mat map_u, map_v;
+  // The fixed-point maps do not round to the nearest pixel.
+  const int map_type =
+      interpolation_type == aslam::InterpolationMethod::NearestNeighbor
+          ? CV_32FC1
+          : CV_16SC2;
   common::buildUndistortMap(
-      *input_camera, *output_camera, CV_16SC2, map_u, map_v);
+      *input_camera, *output_camera, map_type, map_u, map_v);
 
   return std::unique_ptr<MappedUndistorter>(new MappedUndistorter(
       input_camera, output_camera, map_u, map_v, interpolation_type));
diff --git a/aslam_cv_pipeline/src/undistorter-mapped.cc b/aslam_cv_pipeline/src/undistorter-mapped.cc
index a572b73..ad360ba 100644
--- a/aslam_cv_pipeline/src/undistorter-mapped.cc
+++ b/aslam_cv_pipeline/src/undistorter-mapped.cc
@@ -36,7 +36,10 @@ std::unique_ptr<MappedUndistorter> createMappedUndistorterToPinhole(
   CHECK(output_camera);
 
   cv::Mat map_u, map_v;
-  common::buildUndistortMap(*input_camera, *output_camera, CV_16SC2, map_u, map_v);
+  // The fixed-point maps do not round to the nearest pixel.
+  const int map_type =
+      interpolation_type == aslam::InterpolationMethod::NearestNeighbor ? CV_32FC1 : CV_16SC2;
+  common::buildUndistortMap(*input_camera, *output_camera, map_type, map_u, map_v);
 
   return std::unique_ptr<MappedUndistorter>(
       new MappedUndistorter(input_camera, output_camera, map_u, map_v, interpolation_type));
-- 
2.43.0


From c474606075ca14569f00f099889c81443cd0d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 93/99] fix: compute the output camera matrix for the size of
 the undistorted image

---
 aslam_cv_common/include/aslam/common/undistort-helpers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/undistort-helpers.h b/aslam_cv_common/include/aslam/common/undistort-helpers.h
index 1b7d47d..06e39b2 100644
--- a/aslam_cv_common/include/aslam/common/undistort-helpers.h
+++ b/aslam_cv_common/include/aslam/common/undistort-helpers.h
@@ -125,8 +125,10 @@ Eigen::Matrix3d getOptimalNewCameraMatrix(const DerivedCameraType& input_camera,
   CHECK_GE(alpha, 0.0); CHECK_LE(alpha, 1.0);
   CHECK_GT(scale, 0.0);
 
-  cv::Size output_size(static_cast<int>(scale * input_camera.imageWidth()),
-                       static_cast<int>(scale * input_camera.imageHeight()));
+  // Single precision gives the same size as the undistorter factories.
+  const float scale_f = static_cast<float>(scale);
+  cv::Size output_size(static_cast<int>(scale_f * input_camera.imageWidth()),
+                       static_cast<int>(scale_f * input_camera.imageHeight()));
 
   // Get inscribed and circumscribed rectangles in normalized
   cv::Rect_<float> inner, outer;
-- 
2.43.0


From 68f0becc87040385ffe89087505d0e28bd3f96eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 94/99] fix: do not initialize focal lengths from uninitialized
 equations of incomplete views

---
 aslam_cv_calibration/src/focallength-initializers.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_calibration/src/focallength-initializers.cc b/aslam_cv_calibration/src/focallength-initializers.cc
index 976fb41..d0f8df2 100644
--- a/aslam_cv_calibration/src/focallength-initializers.cc
+++ b/aslam_cv_calibration/src/focallength-initializers.cc
@@ -120,8 +120,9 @@ bool initFocalLengthAbsoluteConic(
  const double cv = (observations.at(0)->getImageHeight() - 1.0) / 2.0;
 
  const size_t num_obs = observations.size();
- cv::Mat A(num_obs * 2, 2, CV_64F);
- cv::Mat b(num_obs * 2, 1, CV_64F);
+ // The rows of views that are skipped remain zero.
+ cv::Mat A = cv::Mat::zeros(num_obs * 2, 2, CV_64F);
+ cv::Mat b = cv::Mat::zeros(num_obs * 2, 1, CV_64F);
 
  for (size_t obs_idx = 0u; obs_idx < num_obs; ++obs_idx) {
    TargetObservation::ConstPtr obs = observations[obs_idx];
-- 
2.43.0


From a0d78cb1295e93d648d8987cfc1b0909218d1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 95/99] fix: skip views without a homography when initializing
 focal lengths

---
 aslam_cv_calibration/src/focallength-initializers.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_calibration/src/focallength-initializers.cc b/aslam_cv_calibration/src/focallength-initializers.cc
index d0f8df2..e035436 100644
--- a/aslam_cv_calibration/src/focallength-initializers.cc
+++ b/aslam_cv_calibration/src/focallength-initializers.cc
@@ -150,6 +150,9 @@ bool initFocalLengthAbsoluteConic(
    }
 
    cv::Mat H = cv::findHomography(M, image_corners);
+   if (H.empty()) {
+     continue;
+   }
 
    H.at<double>(0,0) -= H.at<double>(2,0) * cu;
    H.at<double>(0,1) -= H.at<double>(2,1) * cu;
-- 
2.43.0


From 6a8214c85550f00285b3aa72c82ee7c9a0bcb871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 96/99] fix: report undetermined focal lengths as failure

---
 .../src/focallength-initializers.cc                | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_calibration/src/focallength-initializers.cc b/aslam_cv_calibration/src/focallength-initializers.cc
index e035436..24ab69d 100644
--- a/aslam_cv_calibration/src/focallength-initializers.cc
+++ b/aslam_cv_calibration/src/focallength-initializers.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <vector>
 
 #include <aslam/cameras/camera-pinhole.h>
@@ -192,12 +193,19 @@ bool initFocalLengthAbsoluteConic(
  }
 
  cv::Mat f(2, 1, CV_64F);
- cv::solve(A, b, f, cv::DECOMP_NORMAL | cv::DECOMP_LU);
+ if (!cv::solve(A, b, f, cv::DECOMP_NORMAL | cv::DECOMP_LU)) {
+   return false;
+ }
+ const double fu = sqrt(fabs(1.0 / f.at<double>(0)));
+ const double fv = sqrt(fabs(1.0 / f.at<double>(1)));
+ if (!std::isfinite(fu) || !std::isfinite(fv)) {
+   return false;
+ }
 
  // Sets the first intrinsics estimate.
  intrinsics->resize(aslam::PinholeCamera::parameterCount());
- (*intrinsics)(PinholeCamera::kFu) = sqrt(fabs(1.0 / f.at<double>(0)));
- (*intrinsics)(PinholeCamera::kFv) = sqrt(fabs(1.0 / f.at<double>(1)));
+ (*intrinsics)(PinholeCamera::kFu) = fu;
+ (*intrinsics)(PinholeCamera::kFv) = fv;
  (*intrinsics)(PinholeCamera::kCu) = cu;
  (*intrinsics)(PinholeCamera::kCv) = cv;
 
-- 
2.43.0


From 46794df5060c5e89b8226d53e517bdf9256d2ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 97/99] fix: do not return undefined intersections of circles

---
 .../include/aslam/calibration/helpers.h                | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/helpers.h b/aslam_cv_calibration/include/aslam/calibration/helpers.h
index 04d7569..3dcc8cd 100644
--- a/aslam_cv_calibration/include/aslam/calibration/helpers.h
+++ b/aslam_cv_calibration/include/aslam/calibration/helpers.h
@@ -1,6 +1,9 @@
 #ifndef ASLAM_CALIBRATION_CAMERA_INITIALIZER_HELPERS_H
 #define ASLAM_CALIBRATION_CAMERA_INITIALIZER_HELPERS_H
 
+#include <algorithm>
+#include <cmath>
+
 #include <opencv2/core/eigen.hpp>
 #include <Eigen/Core>
 
@@ -35,8 +38,13 @@ class InitializerHelpers {
       return;
     }
 
+    if (!(d > 0.0) || !std::isfinite(d + r1 + r2)) {
+      // The circles are identical or not defined.
+      return;
+    }
+
     double a = (square(r1) - square(r2) + square(d)) / (2.0 * d);
-    double h = sqrt(square(r1) - square(a));
+    double h = sqrt(std::max(square(r1) - square(a), 0.0));
 
     double x3 = x1 + a * (x2 - x1) / d;
     double y3 = y1 + a * (y2 - y1) / d;
-- 
2.43.0


From 168ce8f3c7f0d7d9e4d3adfefc605b79c2bf5c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 98/99] fix: refuse april grid configurations with missing or
 malformed entries

---
 aslam_cv_calibration/src/target-aprilgrid.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_calibration/src/target-aprilgrid.cc b/aslam_cv_calibration/src/target-aprilgrid.cc
index 18a1922..5731aab 100644
--- a/aslam_cv_calibration/src/target-aprilgrid.cc
+++ b/aslam_cv_calibration/src/target-aprilgrid.cc
@@ -23,16 +23,16 @@ TargetAprilGrid::TargetConfiguration::fromYaml(const std::string& yaml_file) {
   try {
     const YAML::Node yaml_node = YAML::LoadFile(yaml_file.c_str());
     std::string target_type;
-    YAML::safeGet(yaml_node, "target_type", &target_type);
+    CHECK(YAML::safeGet(yaml_node, "target_type", &target_type));
     CHECK_EQ(target_type, "aprilgrid") << "Wrong target type.";
-    YAML::safeGet(yaml_node, "tagCols", &target_config.num_tag_cols);
+    CHECK(YAML::safeGet(yaml_node, "tagCols", &target_config.num_tag_cols));
     CHECK_GT(target_config.num_tag_cols, 0u);
-    YAML::safeGet(yaml_node, "tagRows", &target_config.num_tag_rows);
+    CHECK(YAML::safeGet(yaml_node, "tagRows", &target_config.num_tag_rows));
     CHECK_GT(target_config.num_tag_rows, 0u);
-    YAML::safeGet(yaml_node, "tagSize", &target_config.tag_size_meter);
+    CHECK(YAML::safeGet(yaml_node, "tagSize", &target_config.tag_size_meter));
     CHECK_GT(target_config.tag_size_meter, 0.0);
     double relative_tag_spacing;
-    YAML::safeGet(yaml_node, "tagSpacing", &relative_tag_spacing);
+    CHECK(YAML::safeGet(yaml_node, "tagSpacing", &relative_tag_spacing));
     target_config.tag_inbetween_space_meter =
         relative_tag_spacing * target_config.tag_size_meter;
     CHECK_GT(target_config.tag_inbetween_space_meter, 0.0);
-- 
2.43.0


From 084e8316b39ab9c394e90785da9a238b7cd56496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:40 +0000
Subject: [PATCH 99/99] fix: line segments: the false alarm figure uses the
 binomial coefficient

The logarithm of the binomial coefficient n over k starts with log(n!), that
is log_gamma(n + 1), not with n + 1: the number of false alarms came out far
too small, so that LSD_REFINE_ADV accepted what it is meant to reject.
---
 aslam_cv_detector/src/lsd/lsd-opencv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_detector/src/lsd/lsd-opencv.cc b/aslam_cv_detector/src/lsd/lsd-opencv.cc
index 18b564c..9c5ad16 100644
--- a/aslam_cv_detector/src/lsd/lsd-opencv.cc
+++ b/aslam_cv_detector/src/lsd/lsd-opencv.cc
@@ -1214,7 +1214,7 @@ double LineSegmentDetectorImpl::nfa(const int& n, const int& k, const double& p)
 
     double p_term = p / (1 - p);
 
-    double log1term = (double(n) + 1) - log_gamma(double(k) + 1)
+    double log1term = log_gamma(double(n) + 1) - log_gamma(double(k) + 1)
                 - log_gamma(double(n-k) + 1)
                 + double(k) * log(p) + double(n-k) * log(1.0 - p);
     double term = exp(log1term);
-- 
2.43.0

