From 7dbdf34dc789994cdab6d9e468a433a9e8ac8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 001/101] fix: JobQueue must not lose the wakeup of stop() nor
 outlive its threads

stop() and join() set killWorkers_ without the mutex, so a worker between its
check and its wait never woke up and join() hung; join() before start()
dereferenced a null thread group; the destructor did not wait for threads that
had not reached exec_loop() yet, nor for those leaving it, which then used a
destroyed mutex.
---
 sm_boost/src/JobQueue.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 76572db..542a31b 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -4,11 +4,11 @@ namespace sm {
     
     JobQueue::JobQueue() : killWorkers_(false), started_(false), threadsInPool_(0), activeThreads_(0) {}
     JobQueue::~JobQueue() { // we must kill thread before we're dead
-        boost::mutex::scoped_lock lck(mutex_);
-        killWorkers_ = true; // flag to tell thread to die
-        condition_.notify_all();
-        while (threadsInPool_) // all threads must exit
-            condition_.wait(lck);
+        stop(); // flag to tell thread to die
+        // A thread may not have reached exec_loop() yet, or may still be on its
+        // way out of it: the members it uses can only go once it has ended.
+        if(work_)
+            work_->join_all();
     }
 
     void JobQueue::scheduleWork(boost::function<void(void)> const & fn)
@@ -30,14 +30,16 @@ namespace sm {
     }
 
     void JobQueue::stop() {
+        boost::mutex::scoped_lock lck(mutex_); // a worker between its check and its wait must not miss this
         killWorkers_ = true;
+        condition_.notify_all();
     }
 
     void JobQueue::join()
     {
         stop();
-        condition_.notify_all();
-        work_->join_all();
+        if(work_)
+            work_->join_all();
     }
 
     bool JobQueue::empty()
-- 
2.43.0


From 30380b6b669ca6f4861451486badc84870d86c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 002/101] fix: ptimeToTimeval must return its result

It flowed off its end (undefined behaviour), and was a non-inline definition in
a header.
---
 sm_boost/include/sm/boost/ptime.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index 3831f58..fc7fa52 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -5,7 +5,7 @@
 
 namespace sm {
     
-    timeval ptimeToTimeval(const boost::posix_time::ptime time)
+    inline timeval ptimeToTimeval(const boost::posix_time::ptime time)
     {
         static const boost::posix_time::ptime UNIX_EPOCH(boost::gregorian::date(1970,1,1));
         
@@ -14,9 +14,7 @@ namespace sm {
         timeval tv;
         tv.tv_sec = duration.total_seconds();
         tv.tv_usec = duration.fractional_seconds();
-        
-        
-        
+        return tv;
     }
 
     
-- 
2.43.0


From 05678274cbb1b734dca09a07764b0b56fdbe5c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 003/101] fix: boost_serialization::save must report that the
 file could not be written

What the stream still buffered was written by its destructor, which ignores
errors: on a full disk save(), save_txt() and save_xml() returned normally and
left a truncated file.
---
 sm_boost/include/sm/boost/serialization.hpp | 34 +++++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 9eeecd0..7567aaf 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -16,14 +16,25 @@
 // Save and load using boost serailization
 namespace sm { namespace boost_serialization {
 
+        namespace detail {
+            /// Writes out what is still buffered; only then is the object saved.
+            inline void close(std::ofstream & ofs, ::boost::filesystem::path const & filename)
+            {
+                ofs.close();
+                SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to write the file " << filename);
+            }
+        } // namespace detail
+
         template<typename T>
         void save(T & object, ::boost::filesystem::path const & filename)
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::binary_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::binary_oarchive oa(ofs);
+                oa << object;
+            }
+            detail::close(ofs, filename);
         }
 
         template<typename T>
@@ -44,9 +55,11 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str(), std::ios::binary);
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::text_oarchive oa(ofs);
-    
-            oa << object;
+            {
+                ::boost::archive::text_oarchive oa(ofs);
+                oa << object;
+            }
+            detail::close(ofs, filename);
         }
 
         template<typename T>
@@ -67,14 +80,15 @@ namespace sm { namespace boost_serialization {
         {
             std::ofstream ofs(filename.string().c_str());
             SM_ASSERT_TRUE(std::runtime_error,ofs.good(), "Unable to open file " << filename << " for writing");
-            ::boost::archive::xml_oarchive oa(ofs);
             if(topLevelXmlTag.size() == 0)
             {
                 topLevelXmlTag = "object";
             }
-
-            oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
-
+            {
+                ::boost::archive::xml_oarchive oa(ofs);
+                oa << ::boost::serialization::make_nvp(topLevelXmlTag.c_str(), object);
+            }
+            detail::close(ofs, filename);
         }
 
         template<typename T>
-- 
2.43.0


From e3865daf1235ddba61444042b066179ae4686d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 004/101] fix: HashId::fromHexString must refuse what is not
 hexadecimal

Pairs such as "1g", " 1", "+1" and "-1" were read as numbers, and others made
std::stoul throw after part of the id had been overwritten.
---
 sm_common/include/sm/hash_id.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sm_common/include/sm/hash_id.hpp b/sm_common/include/sm/hash_id.hpp
index a0f08b9..df0ddc6 100644
--- a/sm_common/include/sm/hash_id.hpp
+++ b/sm_common/include/sm/hash_id.hpp
@@ -77,6 +77,12 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    // stoul() alone would also take signs, white space, prefixes, and digits
+    // followed by something else.
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") !=
+        std::string::npos){
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From 707901f7c3ba97f8304388b300281ec6c0aee2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 005/101] fix: replace and replace_reverse must end and honour
 their skip count

Both looped for ever when the replacement equals the target, and a backward
skip of the occurrence at position 0 wrapped around to the end of the string,
where it replaced occurrences that were to be skipped.
---
 sm_common/include/sm/string_routines.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sm_common/include/sm/string_routines.hpp b/sm_common/include/sm/string_routines.hpp
index ef65196..38900ee 100755
--- a/sm_common/include/sm/string_routines.hpp
+++ b/sm_common/include/sm/string_routines.hpp
@@ -15,12 +15,10 @@ namespace sm
         while( (pos = str.find(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos++;
-            }
             else
                 str[pos] = replacement;
+            pos++;
         }
         return str;
     }
@@ -33,12 +31,12 @@ namespace sm
         while( (pos = str.rfind(target, pos)) != std::string::npos)
         {
             if(skip)
-            {
                 skip--;
-                pos--;
-            }
             else
                 str[pos] = replacement;
+            if(pos == 0)
+                break;
+            pos--;
         }
         return str;
     }
-- 
2.43.0


From 0863e3ff01cd958d7e43efe8689acc96ea873c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 006/101] fix: SM_CHECKSAME and SM_CHECKMEMBERSSAME must
 combine with &&

They expanded to an unparenthesised conditional expression, so in
'SM_CHECKMEMBERSSAME(rhs, a) && SM_CHECKMEMBERSSAME(rhs, b)' the second
comparison was never made when the first held: Transformation and
UncertainVector compared equal when only their first member was. The verbose
form of SM_CHECKMEMBERSSAME lacked a parenthesis and did not compile.
---
 sm_common/include/sm/serialization_macros.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sm_common/include/sm/serialization_macros.hpp b/sm_common/include/sm/serialization_macros.hpp
index c0f1385..5a7d781 100644
--- a/sm_common/include/sm/serialization_macros.hpp
+++ b/sm_common/include/sm/serialization_macros.hpp
@@ -324,7 +324,7 @@ struct VerboseChecker {
     SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER)
 
 #define SM_SERIALIZATION_CHECKSAME_IMPL(THIS, OTHER) \
-    (sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t, \
         false>::value &&  /*for opencvMats we have to use
         sm::opencv::isBinaryEqual otherwise this code has to depend on opencv*/ \
@@ -348,14 +348,14 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(OTHER)>::result_t>::eval(OTHER) \
     << "\nat " << __PRETTY_FUNCTION__ << /* Print the function where this happened.*/ \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_VERBOSE(OTHER, MEMBER, VERBOSE) \
     (SET_CHECKSAME_VERBOSITY(VERBOSE) && \
-        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER)
+        SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER))
 
 #define SM_SERIALIZATION_CHECKMEMBERSSAME_IMPL(OTHER, MEMBER) \
-    ((sm::serialization::internal::checkTypeIsNotOpencvMat<\
+    (((sm::serialization::internal::checkTypeIsNotOpencvMat<\
         typename sm::common::StripConstReference<decltype(OTHER)>::result_t,\
         false>::value) &&  /* For opencvMats we have to use sm::opencv::isBinaryEqual
         otherwise this code has to depend on opencv.*/\
@@ -375,7 +375,7 @@ struct VerboseChecker {
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t>::value, \
     typename sm::common::StripConstReference<decltype(MEMBER)>::result_t >::eval(OTHER.MEMBER) \
     << "\nat " << __PRETTY_FUNCTION__ << \
-    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false)
+    " In: " << __FILE__ << ":" << __LINE__ << std::endl << std::endl) && false : false))
 
 // This is some internal default macro parameter deduction.
 #define SM_SERIALIZATION_GET_3RD_ARG(arg1, arg2, arg3, ...) arg3
-- 
2.43.0


From 19bc3ea1ba03ca4accc2fa3d619bc86ed0bde589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 007/101] fix: ordering assertions must fail on NaN

SM_ASSERT_LT and the like tested the opposite relation, which is false for NaN
too, so a NaN operand passed every one of them (SM_ASSERT_NEAR already negates
the stated relation). SM_ASSERT_NOTNULL and SM_ASSERT_NULL parenthesise their
operand as the others do.
---
 sm_common/include/sm/assert_macros.hpp | 48 +++++++++++++-------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index 8453af2..ebbe211 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -103,7 +103,7 @@ namespace sm {
 
 
 #define SM_ASSERT_GE_LT(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) >= (upperBound))							\
+  if(!((value) >= (lowerBound) && (value) < (upperBound)))							\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #lowerBound << " <= " << #value << " < " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " < " << (upperBound) << "]: " << message; \
@@ -111,7 +111,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_LE(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) <= (lowerBound) || (value) > (upperBound))             \
+  if(!((value) > (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #lowerBound << " < " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " < " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -119,7 +119,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE_LE(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) > (upperBound))             \
+  if(!((value) >= (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #lowerBound << " <= " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -127,7 +127,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_LT(exceptionType, value, upperBound, message)			\
-  if((value) >= (upperBound))												\
+  if(!((value) < (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " < " << #upperBound << ") failed [" << (value) << " < " << (upperBound) << "]: " <<  message; \
@@ -135,7 +135,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE(exceptionType, value, lowerBound, message)			\
-  if((value) < (lowerBound))												\
+  if(!((value) >= (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " >= " << #lowerBound << ") failed [" << (value) << " >= " << (lowerBound) << "]: " <<  message; \
@@ -145,7 +145,7 @@ namespace sm {
 
 
 #define SM_ASSERT_LE(exceptionType, value, upperBound, message)			\
-  if((value) > (upperBound))												\
+  if(!((value) <= (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " <= " << #upperBound << ") failed [" << (value) << " <= " << (upperBound) << "]: " <<  message; \
@@ -153,7 +153,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT(exceptionType, value, lowerBound, message)			\
-  if((value) <= (lowerBound))												\
+  if(!((value) > (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "assert(" << #value << " > " << #lowerBound << ") failed [" << (value) << " > " << (lowerBound) << "]: " <<  message; \
@@ -161,7 +161,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_POSITIVE(exceptionType, value, message)     \
-  if((value) <= 0.0)                       \
+  if(!((value) > 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " > 0.0) failed [" << (value) << " > 0.0]: " <<  message; \
@@ -169,7 +169,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONNEGATIVE(exceptionType, value, message)     \
-  if((value) < 0.0)                       \
+  if(!((value) >= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -177,7 +177,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NEGATIVE(exceptionType, value, message)     \
-  if((value) >= 0.0)                       \
+  if(!((value) < 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " < 0.0) failed [" << (value) << " < 0.0]: " <<  message; \
@@ -185,7 +185,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONPOSITIVE(exceptionType, value, message)     \
-  if((value) > 0.0)                       \
+  if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -201,7 +201,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NOTNULL(exceptionType, value, message)     \
-  if(value == nullptr)                       \
+  if((value) == nullptr)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " != NULL) failed: " <<  message; \
@@ -209,7 +209,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NULL(exceptionType, value, message)     \
-  if(value != nullptr)                       \
+  if((value) != nullptr)                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "assert(" << #value << " == NULL) failed: " <<  message; \
@@ -290,7 +290,7 @@ namespace sm {
 #define SM_ASSERT_DBG_RE( condition, message) SM_ASSERT_DBG(std::runtime_error, condition, message)
 
 #define SM_ASSERT_GE_LT_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) >= (upperBound))							\
+  if(!((value) >= (lowerBound) && (value) < (upperBound)))							\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #lowerBound << " <= " << #value << " < " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " < " << (upperBound) << "]: " << message; \
@@ -298,7 +298,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_LE_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) <= (lowerBound) || (value) > (upperBound))             \
+  if(!((value) > (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #lowerBound << " < " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " < " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -306,7 +306,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GE_LE_DBG(exceptionType, value, lowerBound, upperBound, message) \
-  if((value) < (lowerBound) || (value) > (upperBound))             \
+  if(!((value) >= (lowerBound) && (value) <= (upperBound)))             \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #lowerBound << " <= " << #value << " <= " << #upperBound << ") failed [" << (lowerBound) << " <= " << (value) << " <= " << (upperBound) << "]: " << message; \
@@ -314,7 +314,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_POSITIVE_DBG(exceptionType, value, message)     \
-  if((value) <= 0.0)                       \
+  if(!((value) > 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " > 0.0) failed [" << (value) << " > 0.0]: " <<  message; \
@@ -322,7 +322,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONNEGATIVE_DBG(exceptionType, value, message)     \
-  if((value) < 0.0)                       \
+  if(!((value) >= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -330,7 +330,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NEGATIVE_DBG(exceptionType, value, message)     \
-  if((value) >= 0.0)                       \
+  if(!((value) < 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " < 0.0) failed [" << (value) << " < 0.0]: " <<  message; \
@@ -338,7 +338,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_NONPOSITIVE_DBG(exceptionType, value, message)     \
-  if((value) > 0.0)                       \
+  if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
       sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
@@ -362,7 +362,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_LT_DBG(exceptionType, value, upperBound, message)		\
-  if((value) >= (upperBound))												\
+  if(!((value) < (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " < " << #upperBound << ") failed [" << (value) << " < " << (upperBound) << "]: " <<  message; \
@@ -372,7 +372,7 @@ namespace sm {
 
 
 #define SM_ASSERT_GE_DBG(exceptionType, value, lowerBound, message)		\
-  if((value) < (lowerBound))												\
+  if(!((value) >= (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " >= " << #lowerBound << ") failed [" << (value) << " >= " << (lowerBound) << "]: " <<  message; \
@@ -382,7 +382,7 @@ namespace sm {
 
 
 #define SM_ASSERT_LE_DBG(exceptionType, value, upperBound, message)		\
-  if((value) > (upperBound))												\
+  if(!((value) <= (upperBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " <= " << #upperBound << ") failed [" << (value) << " <= " << (upperBound) << "]: " <<  message; \
@@ -390,7 +390,7 @@ namespace sm {
     }
 
 #define SM_ASSERT_GT_DBG(exceptionType, value, lowerBound, message)		\
-  if((value) <= (lowerBound))												\
+  if(!((value) > (lowerBound)))												\
     {																	\
       std::stringstream sm_assert_stringstream;							\
       sm_assert_stringstream << "debug assert(" << #value << " > " << #lowerBound << ") failed [" << (value) << " > " << (lowerBound) << "]: " <<  message; \
-- 
2.43.0


From e00e33e3eb29be222123186dcbf828240d401bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 008/101] fix: SM_ASSERT_NONPOSITIVE must state its own
 condition in the message

---
 sm_common/include/sm/assert_macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_common/include/sm/assert_macros.hpp b/sm_common/include/sm/assert_macros.hpp
index ebbe211..607dbd0 100755
--- a/sm_common/include/sm/assert_macros.hpp
+++ b/sm_common/include/sm/assert_macros.hpp
@@ -188,7 +188,7 @@ namespace sm {
   if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
-      sm_assert_stringstream << "assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
+      sm_assert_stringstream << "assert(" << #value << " <= 0.0) failed [" << (value) << " <= 0.0]: " <<  message; \
       sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
     }
 
@@ -341,7 +341,7 @@ namespace sm {
   if(!((value) <= 0.0))                       \
     {                                 \
       std::stringstream sm_assert_stringstream;             \
-      sm_assert_stringstream << "debug assert(" << #value << " >= 0.0) failed [" << (value) << " >= 0.0]: " <<  message; \
+      sm_assert_stringstream << "debug assert(" << #value << " <= 0.0) failed [" << (value) << " <= 0.0]: " <<  message; \
       sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
     }
 
-- 
2.43.0


From e572cf4b9a372147fbfdb46ba4cdda6ea2317791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 009/101] fix: solveQuadratic must return 0, 0 for a x^2 = 0

The second root came out as 0/0 = NaN.
---
 sm_common/include/sm/maths.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_common/include/sm/maths.hpp b/sm_common/include/sm/maths.hpp
index 9eea956..91e7e0f 100755
--- a/sm_common/include/sm/maths.hpp
+++ b/sm_common/include/sm/maths.hpp
@@ -34,6 +34,10 @@ namespace sm {
 	n = -sqrt(bb_m_4ac) - b;
       }
 
+    // Only when b and c are both zero: 0 is the double root, and (2*c)/n is not a number.
+    if(n == 0.0)
+      return std::make_pair(0.0,0.0);
+
     return std::make_pair(n/(2*a),(2*c)/n);
 
   }
-- 
2.43.0


From 9df85925bcb8b1e12268c3dc9fd16abaaddf57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 010/101] fix: sm::round must round to nearest, and sm::lrint
 must not go through int

floor(x + 0.5) rounded 0.49999999999999994 to 1 and changed odd integers above
2^52; lrint(double) truncated (undefined behaviour) results beyond int.
---
 sm_common/include/sm/round.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sm_common/include/sm/round.hpp b/sm_common/include/sm/round.hpp
index 6e8860e..7b8bc54 100644
--- a/sm_common/include/sm/round.hpp
+++ b/sm_common/include/sm/round.hpp
@@ -1,16 +1,18 @@
 #ifndef SM_ROUND_HPP
 #define SM_ROUND_HPP
 
+#include <cmath>
+
 namespace sm {
     
     inline double round (double number)
     {
-        return (number < 0.0 ? ceil (number - 0.5) : floor (number + 0.5));
+        return std::round(number); // floor(number + 0.5) is off where the sum is not exact
     }
 
     inline float round (float number)
     {
-        return (number < 0.0f ? ceilf (number - 0.5f) : floorf (number + 0.5f));
+        return std::round(number);
     }
 
     inline int rint(double number)
@@ -25,7 +27,7 @@ namespace sm {
 
     inline long int lrint(double number)
     {
-        return static_cast<int>( round(number) );
+        return static_cast<long int>( round(number) );
     }
 
     inline long int lrint(float number)
-- 
2.43.0


From f8a8b6e088e3444c842df76d97a749d9e9a151cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 011/101] fix: SM_ASSERT_CMD must negate its whole condition

'!x > 0' is never true for the documented example SM_ASSERT_CMD(x > 0, ...).
---
 sm_logging/include/sm/logging/assert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_logging/include/sm/logging/assert.h b/sm_logging/include/sm/logging/assert.h
index 46c2c68..a4766d0 100644
--- a/sm_logging/include/sm/logging/assert.h
+++ b/sm_logging/include/sm/logging/assert.h
@@ -134,7 +134,7 @@
 
 #define SM_ASSERT_CMD(cond, cmd) \
   do { \
-    if (!cond) { \
+    if (!(cond)) { \
       cmd; \
     } \
   } while (0)
-- 
2.43.0


From 4e49890d7fab4b72f0bdd1646db41e62401582e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 012/101] fix: randLU and randLUi must stay inside the range
 they are given

randLU could return its exclusive upper bound when the last addition was rounded
up; randLUi computed the width of the range in int, which overflows for wide
ranges.
---
 sm_random/src/random.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sm_random/src/random.cpp b/sm_random/src/random.cpp
index 6b9a5d2..8892d2c 100755
--- a/sm_random/src/random.cpp
+++ b/sm_random/src/random.cpp
@@ -1,4 +1,5 @@
 #include <sm/random.hpp>
+#include <cmath>
 #include <boost/random/mersenne_twister.hpp>
 #include <boost/random/linear_congruential.hpp>
 #include <boost/random/uniform_int.hpp>
@@ -77,12 +78,18 @@ double rand()
 
 double randLU(double lowerBoundInclusive, double upperBoundExclusive)
 {
-  return Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  const double sample = Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive) + lowerBoundInclusive;
+  // The sum may have been rounded up to the bound that is not part of the range.
+  if (sample >= upperBoundExclusive && lowerBoundInclusive < upperBoundExclusive)
+    return std::nextafter(upperBoundExclusive, lowerBoundInclusive);
+  return sample;
 }
 
 int randLUi(int lowerBoundInclusive, int upperBoundExclusive)
 {
-  return (int)floor(Random::instance().uniform() * (upperBoundExclusive - lowerBoundInclusive)) + lowerBoundInclusive;
+  // In double: the width of the range need not fit into an int.
+  const double width = (double)upperBoundExclusive - (double)lowerBoundInclusive;
+  return (int)(std::floor(Random::instance().uniform() * width) + lowerBoundInclusive);
 }
 
 void seed(boost::uint64_t s)
-- 
2.43.0


From 68421a0ebca21c27db2725d990373c72836deb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 013/101] fix: getInvalidTime must be usable outside its
 translation unit

---
 sm_timing/include/sm/timing/NsecTimeUtilities.hpp | 5 ++++-
 sm_timing/src/NsecTimeUtilities.cpp               | 4 ----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
index 7a7d859..c63c9fa 100644
--- a/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
+++ b/sm_timing/include/sm/timing/NsecTimeUtilities.hpp
@@ -11,6 +11,7 @@
 #define SM_NSEC_TIME_UTILITIES
 
 #include <chrono>
+#include <limits>
 #include <boost/cstdint.hpp>
 
 namespace sm {
@@ -35,7 +36,9 @@ double nsecToSec( const NsecTime & time );
 NsecTime secToNsec( const double & time );
 
 /// \brief return a magic number representing an invalid timestamp
-constexpr NsecTime getInvalidTime();
+constexpr NsecTime getInvalidTime() {
+  return std::numeric_limits<NsecTime>::min();
+}
 
 /// \brief Is the time valid? This uses a magic number
 ///        std::numeric_limits<NsecTime>::min() to represent an invalid time
diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index b4d870c..fb231ce 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -35,10 +35,6 @@ NsecTime secToNsec( const double & time ) {
   return boost::int64_t( time * 1e9 );
 }
 
-constexpr NsecTime getInvalidTime() {
-  return std::numeric_limits<NsecTime>::min();
-}
-
 bool isValid(const NsecTime& time) {
    return getInvalidTime() == time;
 }
-- 
2.43.0


From 367dd4451d50e6c91ca927c6bdacd4630de84164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 014/101] fix: isValid must be true for valid times

---
 sm_timing/src/NsecTimeUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index fb231ce..817e8d6 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -36,7 +36,7 @@ NsecTime secToNsec( const double & time ) {
 }
 
 bool isValid(const NsecTime& time) {
-   return getInvalidTime() == time;
+   return getInvalidTime() != time;
 }
 
 } // namespace timing
-- 
2.43.0


From 008b89562fea975f3177cec0c8468629a4b14688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 015/101] fix: secToNsec must invert nsecToSec

---
 sm_timing/src/NsecTimeUtilities.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_timing/src/NsecTimeUtilities.cpp b/sm_timing/src/NsecTimeUtilities.cpp
index 817e8d6..ab7dbe1 100644
--- a/sm_timing/src/NsecTimeUtilities.cpp
+++ b/sm_timing/src/NsecTimeUtilities.cpp
@@ -1,4 +1,5 @@
 #include <sm/timing/NsecTimeUtilities.hpp>
+#include <cmath>
 
 namespace sm {
 namespace timing {
@@ -32,7 +33,7 @@ double nsecToSec( const NsecTime & time ) {
 
 /// \brief Convert the time (in seconds) to integer nanoseconds
 NsecTime secToNsec( const double & time ) {
-  return boost::int64_t( time * 1e9 );
+  return std::llround( time * 1e9 );
 }
 
 bool isValid(const NsecTime& time) {
-- 
2.43.0


From be3d120210b5f02a983070957498345930821861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 016/101] fix: TimestampCorrector must not keep the midpoint
 segment of a larger hull

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index a2604b0..76b8d3b 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -52,6 +52,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
   }
   else {
     // and if there aren't enough data points, just return the sampled local time.
+    _midpointSegmentIndex = 0u;
     return localTime;
   }
 
-- 
2.43.0


From 8f28e5f69657540cf6b20903d6ae3abdf003369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 017/101] fix: the midpoint of the hull must not leave the hull
 by rounding

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 76b8d3b..274e29e 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -34,7 +34,7 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(
 
   // Update the midpoint pointer...
   if(_convexHull.size() >= 3u) {
-    T midpoint = static_cast<T>((_convexHull[0u].x + remoteTime) / 2.0);
+    T midpoint = _convexHull[0u].x + (remoteTime - _convexHull[0u].x) / 2;
 
     typename convex_hull_t::iterator lbit = std::lower_bound(_convexHull.begin(),
                                                              _convexHull.end(), midpoint);
-- 
2.43.0


From 962b3a97c64694e5239db3fc8453b1351a1406db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 018/101] fix: TimestampCorrector must not overflow with
 integer times

---
 .../include/sm/timing/implementation/TimestampCorrector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index 274e29e..c57f312 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -161,9 +161,11 @@ bool TimestampCorrector<T>::isAboveLine(const Point & l1, const Point & l2, cons
   const Point v1 = l2 - l1;
   const Point v2 = p - l1;
 
-  const T determinant = v1.x * v2.y - v1.y * v2.x;
+  // The products of integer times overflow their own type.
+  const long double determinant = static_cast<long double>(v1.x) * v2.y
+      - static_cast<long double>(v1.y) * v2.x;
 
-  return determinant >= static_cast<T>(0.0);
+  return determinant >= 0.0L;
 }
 
 } // namespace timing
-- 
2.43.0


From 89025d597fb20ba775ab58faa85a6633765f2fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 019/101] fix: resetting a TimestampCorrector must also forget
 its pending corrector

---
 sm_timing/include/sm/timing/TimestampCorrector.hpp             | 2 +-
 .../include/sm/timing/implementation/TimestampCorrector.hpp    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_timing/include/sm/timing/TimestampCorrector.hpp b/sm_timing/include/sm/timing/TimestampCorrector.hpp
index 6572044..567012c 100755
--- a/sm_timing/include/sm/timing/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/TimestampCorrector.hpp
@@ -94,7 +94,7 @@ namespace sm {
       /**
        * Clear the points of the convex hull
        */
-      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; }
+      void reset() { _convexHull.clear(); _midpointSegmentIndex = 0; _pendingCorrector.reset(); }
 
       double getSlope() const;
       double getOffset() const;
diff --git a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
index c57f312..0702f64 100755
--- a/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
+++ b/sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp
@@ -75,7 +75,8 @@ typename TimestampCorrector<T>::time_t TimestampCorrector<T>::correctTimestamp(c
 
   if (this->span() > switchingPeriod)
   {
-    reset();
+    _convexHull.clear();
+    _midpointSegmentIndex = 0u;
     _pendingCorrector->_pendingCorrector = _pendingCorrector;
     std::swap(*_pendingCorrector, *this);
     _pendingCorrector->_pendingCorrector.reset();
-- 
2.43.0


From f3d522f1b6f96e7e625a16940d5950fd0f26303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 020/101] fix: timers must not jump with the local time zone

---
 sm_timing/src/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6104584..008631b 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -121,7 +121,7 @@ namespace timing {
 #ifdef SM_USE_HIGH_PERF_TIMER
     QueryPerformanceCounter(&m_time);
 #else
-    m_time = boost::posix_time::microsec_clock::local_time();
+    m_time = boost::posix_time::microsec_clock::universal_time();
 #endif
   }
   
@@ -134,7 +134,7 @@ namespace timing {
     QueryPerformanceCounter(&end);
     dt = (double)(end.QuadPart - m_time.QuadPart)*Timing::instance().m_clockPeriod;	
 #else
-    boost::posix_time::ptime now = boost::posix_time::microsec_clock::local_time();
+    boost::posix_time::ptime now = boost::posix_time::microsec_clock::universal_time();
     boost::posix_time::time_duration t = now - m_time;
     dt = ((double)t.total_nanoseconds() * 1e-9);
 #endif
-- 
2.43.0


From ddd02e39ef50d3e25ecb23ae4007a991e595d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 021/101] fix: the variance of a timer must not turn negative

---
 sm_timing/src/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 008631b..6917770 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -19,7 +19,7 @@ namespace timing {
     boost::accumulators::accumulator_set<
         double,
         boost::accumulators::features<
-          boost::accumulators::tag::lazy_variance,
+          boost::accumulators::tag::variance,
           boost::accumulators::tag::sum,
           boost::accumulators::tag::min,
           boost::accumulators::tag::max,
-- 
2.43.0


From 5e455500cde659b967be5bcb0b0a825b932b4dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 022/101] fix: querying and printing timers must hold the timer
 lock

---
 sm_timing/include/sm/timing/Timer.hpp |  4 ++--
 sm_timing/src/Timer.cpp               | 25 +++++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/sm_timing/include/sm/timing/Timer.hpp b/sm_timing/include/sm/timing/Timer.hpp
index 61790eb..43c36fd 100755
--- a/sm_timing/include/sm/timing/Timer.hpp
+++ b/sm_timing/include/sm/timing/Timer.hpp
@@ -14,7 +14,7 @@
 #endif
 
 namespace boost {
- class mutex;
+ class recursive_mutex;
 }
 
 namespace sm {
@@ -113,7 +113,7 @@ namespace timing {
 #endif
     size_t m_maxTagLength;
     
-    static boost::mutex m_mutex;
+    static boost::recursive_mutex m_mutex;
 
   }; // end class timer
   
diff --git a/sm_timing/src/Timer.cpp b/sm_timing/src/Timer.cpp
index 6917770..2b3c87a 100755
--- a/sm_timing/src/Timer.cpp
+++ b/sm_timing/src/Timer.cpp
@@ -2,7 +2,7 @@
 #include <sm/assert_macros.hpp>
 #include <stdio.h>
 
-#include <boost/thread/mutex.hpp>
+#include <boost/thread/recursive_mutex.hpp>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics.hpp>
@@ -31,7 +31,7 @@ namespace timing {
 
 
 
-  boost::mutex Timing::m_mutex;
+  boost::recursive_mutex Timing::m_mutex;
   
   Timing & Timing::instance() {
     static Timing t;
@@ -56,7 +56,7 @@ namespace timing {
   // Static funcitons to query the timers:
   size_t Timing::getHandle(std::string const & tag){
     // Search for an existing tag.
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t::iterator i = instance().m_tagMap.find(tag);
     if(i == instance().m_tagMap.end()) {
       // If it is not there, create a tag.
@@ -73,6 +73,7 @@ namespace timing {
   
   
   std::string Timing::getTag(size_t handle){
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     std::string tag;
     bool found = false;
     
@@ -97,7 +98,10 @@ namespace timing {
     m_handle(handle)
     
   {
-    SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    {
+      boost::recursive_mutex::scoped_lock lock(Timing::m_mutex);
+      SM_ASSERT_LT(TimerException,handle, Timing::instance().m_timers.size(),"The handle is invalid. Handle: " << handle << ", number of timers: " << Timing::instance().m_timers.size());
+    }
     if(!constructStopped)
       start();
   }
@@ -149,11 +153,12 @@ namespace timing {
   
   
   void Timing::addTime(size_t handle, double seconds){
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     m_timers[handle].m_acc(seconds);
   }
   
   double Timing::getTotalSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::sum(instance().m_timers[handle].m_acc);
   }
@@ -161,6 +166,7 @@ namespace timing {
     return getTotalSeconds(getHandle(tag));
   }
   double Timing::getMeanSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::mean(instance().m_timers[handle].m_acc);
   }
@@ -168,6 +174,7 @@ namespace timing {
     return getMeanSeconds(getHandle(tag));
   }
   size_t Timing::getNumSamples(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle , instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::count(instance().m_timers[handle].m_acc);
   }
@@ -175,6 +182,7 @@ namespace timing {
     return getNumSamples(getHandle(tag));
   }
   double Timing::getVarianceSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::variance(instance().m_timers[handle].m_acc);
   }
@@ -182,6 +190,7 @@ namespace timing {
     return getVarianceSeconds(getHandle(tag));
   }
   double Timing::getMinSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::min(instance().m_timers[handle].m_acc);
   }
@@ -189,6 +198,7 @@ namespace timing {
     return getMinSeconds(getHandle(tag));
   }
   double Timing::getMaxSeconds(size_t handle) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return boost::accumulators::extract::max(instance().m_timers[handle].m_acc);		
   }
@@ -198,6 +208,7 @@ namespace timing {
   
   double Timing::getHz(size_t handle)
   {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     return 1.0/boost::accumulators::extract::rolling_mean(instance().m_timers[handle].m_acc);		
   }
@@ -208,7 +219,7 @@ namespace timing {
   }
 
   void Timing::reset(size_t handle) {
-    boost::mutex::scoped_lock lock(m_mutex);
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     SM_ASSERT_LT(TimerException, handle, instance().m_timers.size(), "Handle is out of range: " << handle << ", number of timers: " << instance().m_timers.size());
     instance().m_timers[handle] = TimerMapValue();
   }
@@ -267,6 +278,7 @@ namespace timing {
   }
 
   void Timing::print(std::ostream & out) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     struct Accessor {
       size_t getIndex(map_t::const_iterator t) const {
         return t->second;
@@ -280,6 +292,7 @@ namespace timing {
   }
 
   void Timing::print(std::ostream & out, const SortType sort) {
+    boost::recursive_mutex::scoped_lock lock(m_mutex);
     map_t & tagMap = instance().m_tagMap;
 
     typedef std::multimap<double, std::string, std::greater<double> > SortMap_t;
-- 
2.43.0


From 2694b6a2f6c26ac948d1d7732aba78e0958ff2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 023/101] fix: computeMatrixSqrt must not return NaN for
 singular matrices

---
 sm_eigen/include/sm/eigen/matrix_sqrt.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
index 01048fa..8a2e83f 100755
--- a/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
+++ b/sm_eigen/include/sm/eigen/matrix_sqrt.hpp
@@ -3,6 +3,8 @@
 
 #include <sm/assert_macros.hpp>
 #include <Eigen/Cholesky>
+#include <Eigen/Eigenvalues>
+#include <limits>
 
 namespace sm {
     namespace eigen {
@@ -31,6 +33,20 @@ namespace sm {
             // which is not an actual matrix. Using DERIVED1 as the template argument
             // in that case will cause a firestorm of compiler errors.
             Eigen::LDLT< DERIVED2 > ldlt(inMatrix.derived());
+            if((ldlt.vectorD().array() < 0).any())
+            {
+                // Rounding made a pivot of a singular matrix negative: its square root
+                // would be NaN. The eigenvalues are accurate enough to tell this from
+                // a matrix that is not positive semidefinite.
+                typedef typename DERIVED2::RealScalar real_t;
+                Eigen::SelfAdjointEigenSolver< DERIVED2 > eig(inMatrix.derived());
+                const real_t tolerance = 100 * inMatrix.rows() * std::numeric_limits<real_t>::epsilon();
+                if(eig.eigenvalues().minCoeff() >= -tolerance * eig.eigenvalues().maxCoeff())
+                {
+                    result = eig.eigenvectors() * eig.eigenvalues().cwiseMax(real_t(0)).cwiseSqrt().asDiagonal();
+                    return;
+                }
+            }
             result = ldlt.matrixL();
             result = ldlt.transpositionsP().transpose() * result;
             result *= ldlt.vectorD().array().sqrt().matrix().asDiagonal();
-- 
2.43.0


From ad985361530042eea185f12874173fe1ad3ea273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 024/101] fix: a matrix with no columns must load as it was
 saved

---
 sm_eigen/include/sm/eigen/serialization.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/serialization.hpp b/sm_eigen/include/sm/eigen/serialization.hpp
index a41e059..c1ad6a1 100755
--- a/sm_eigen/include/sm/eigen/serialization.hpp
+++ b/sm_eigen/include/sm/eigen/serialization.hpp
@@ -142,7 +142,10 @@ namespace boost { namespace serialization {
       SM_ASSERT_EQ(sm::eigen::SerializationException,rows,A,"Unexpected number of rows found for fixed-sized type");
     
       M.resize(Eigen::NoChange,cols);
-      ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+      if(rows > 0 && cols > 0)
+	{
+	  ar >> make_nvp("data",make_array(&M(0,0),M.rows()*M.cols()));
+	}
 
     }
 
-- 
2.43.0


From b798391c871a0fb11396b38fca35810357b211c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 025/101] fix: MatrixArchive::clear(name) must also clear
 strings

---
 sm_matrix_archive/src/MatrixArchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2f6950d..70e8a12 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -32,7 +32,7 @@ namespace sm
   void MatrixArchive::clear(std::string const & entryName)
   {
     m_values.erase(entryName);
-    m_values.erase(entryName);
+    m_strings.erase(entryName);
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 624c5b6c66bc104e6710e3ed39fe1a2e78fe5ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 026/101] fix: MatrixArchive::append must write the archive

---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 70e8a12..2a0c939 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -436,10 +436,12 @@ namespace sm
 
   }
 
-  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & /* validNames */) const
+  void MatrixArchive::append(boost::filesystem::path const & amaFilePath, std::set<std::string> const & validNames) const
   {
     std::ofstream fout(amaFilePath.string().c_str(), std::ios::binary | std::ios::app);
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
+
+    save(fout, validNames);
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From e7cfe357e3847c11ef6eb32902da25f8a7013645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 027/101] fix: MatrixArchive must report what could not be
 flushed to the file

---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2a0c939..aa68c80 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -366,6 +366,7 @@ namespace sm
     save(fout, validNames);
 
     fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   void MatrixArchive::save(std::ostream & fout, std::set<std::string> const & validNames) const
@@ -442,6 +443,9 @@ namespace sm
     SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Unable to open file " << amaFilePath.string() << " for writing");
 
     save(fout, validNames);
+
+    fout.close();
+    SM_ASSERT_TRUE(MatrixArchiveException, fout.good(), "Error while writing file " << amaFilePath.string());
   }
 
   size_t MatrixArchive::maxNameSize()
-- 
2.43.0


From 6482a24de8b0bef207bf5244f75beca5aabb77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 028/101] fix: a name in a MatrixArchive must hold one value

---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 5 ++---
 sm_matrix_archive/src/MatrixArchive.cpp        | 8 ++++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index ab42f84..d8872bb 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -121,11 +121,9 @@ namespace sm {
     template<typename Derived>
     void MatrixArchive::setMatrix(std::string const & matrixName, Eigen::MatrixBase<Derived> const & matrix)
     {
-      if(m_strings.count(matrixName) > 0){
-        m_strings.erase(matrixName);
-      }
       validateName(matrixName, SM_SOURCE_FILE_POS);
       m_values[matrixName] = matrix;
+      m_strings.erase(matrixName);
     }
   
     template<typename Derived>
@@ -134,6 +132,7 @@ namespace sm {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
       m_values[vectorName] = vector;
+      m_strings.erase(vectorName);
     }
 
   } // end namespace sm
diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index aa68c80..a985c16 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -41,6 +41,7 @@ namespace sm
     Eigen::MatrixXd & M = m_values[scalarName];
     M.resize(1,1);
     M(0,0) = scalar;
+    m_strings.erase(scalarName);
   }
   
   void MatrixArchive::setString(std::string const & stringName, std::string const & value)
@@ -71,10 +72,15 @@ namespace sm
       {
         SM_THROW(MatrixArchiveException,"There is already a matrix of name \"" << matrixName << "\" in the archive");
       }
+      if(m_strings.count(matrixName) > 0)
+      {
+        SM_THROW(MatrixArchiveException,"There is already a string of name \"" << matrixName << "\" in the archive");
+      }
     }
 
     Eigen::MatrixXd & val = m_values[matrixName];
     val.resize(rows, cols);
+    m_strings.erase(matrixName);
     return val;
   }
 
@@ -426,9 +432,11 @@ namespace sm
         switch(blockType){
           case MATRIX:
             m_values[name] = matrix;
+            m_strings.erase(name);
             break;
           case STRING:
             m_strings[name] = valueString;
+            m_values.erase(name);
             break;
         }
       }
-- 
2.43.0


From 1acc16e6a66b7a8bdf632ef9ab377ff1fa5f9fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 029/101] fix: MatrixArchive::createMatrix must validate the
 name

---
 sm_matrix_archive/src/MatrixArchive.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index a985c16..2fa3521 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -66,6 +66,7 @@ namespace sm
 
   Eigen::MatrixXd & MatrixArchive::createMatrix(std::string const & matrixName, int rows, int cols, bool overwriteExisting)
   {
+    validateName(matrixName, SM_SOURCE_FILE_POS);
     if(!overwriteExisting){
       matrix_map_t::const_iterator it = m_values.find(matrixName);
       if(it != m_values.end())
-- 
2.43.0


From 9be8de981cdf645196cab8fa8903d82d1f8ff9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 030/101] fix: MatrixArchive must not pass negative characters
 to isalpha

---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 2fa3521..6426569 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -156,11 +156,11 @@ namespace sm
       SM_THROW(MatrixArchiveException, "The name \"" << name << "\" is an incorrect size. Names length must be between 1 and " << s_fixedNameSize);
     }
 
-    SM_ASSERT_TRUE(MatrixArchiveException, isalpha(name[0]), "The name \"" << name << "\" is invalid. The first character of the name must be a letter");
+    SM_ASSERT_TRUE(MatrixArchiveException, isalpha(static_cast<unsigned char>(name[0])), "The name \"" << name << "\" is invalid. The first character of the name must be a letter");
 
     for(unsigned i = 1; i < name.size(); i++)
     {
-      SM_ASSERT_TRUE(MatrixArchiveException, isalnum(name[i]) || name[i] == '_', "The name \"" << name << "\" is invalid. The characters of the name must be alphanumeric or an underscore. (failed at character " << i << ")");
+      SM_ASSERT_TRUE(MatrixArchiveException, isalnum(static_cast<unsigned char>(name[i])) || name[i] == '_', "The name \"" << name << "\" is invalid. The characters of the name must be alphanumeric or an underscore. (failed at character " << i << ")");
     }
   }
 
-- 
2.43.0


From 1d0a195f5cc5fe2581cad72d971bfe9043886bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 031/101] fix: MatrixArchive::load must refuse truncated and
 damaged blocks

---
 sm_matrix_archive/src/MatrixArchive.cpp | 41 +++++++++++++++++++------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 6426569..41a4878 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -1,5 +1,7 @@
+#include <algorithm>
 #include <fstream>
 #include <cstdio>
+#include <vector>
 #include <boost/algorithm/string/trim.hpp>
 #include <sm/MatrixArchive.hpp>
 
@@ -11,6 +13,8 @@ namespace sm
   const char MatrixArchive::s_magicCharStartAStringBlock = 'S';
   const char MatrixArchive::s_magicCharEnd = 'B';
 
+  namespace { const size_t s_readChunkSize = 1 << 20; }
+
   MatrixArchive::MatrixArchive()
   {
     // 0
@@ -225,7 +229,7 @@ namespace sm
     fout.write(reinterpret_cast<const char *>(&cols), 4);
 
     // data
-    boost::uint32_t dataSize = rows * cols * sizeof(double);
+    std::streamsize dataSize = static_cast<std::streamsize>(matrix.size()) * sizeof(double);
     fout.write(reinterpret_cast<const char *>(matrix.data()),dataSize);
 
     // std::cout << "Writing matrix " << name << ", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl;
@@ -247,13 +251,19 @@ namespace sm
     // 4 byte columns
     boost::uint32_t cols;
     fin.read(reinterpret_cast<char *>(&cols),4);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a matrix block");
     
-    // data
-
-    matrix.resize(rows,cols);
-    std::streamsize dataSize = rows * cols * sizeof(double);
-    //std::cout << "Reading matrix \"" << name << "\", size: " << rows << "x" << cols << ", dataSize: " << dataSize << std::endl; 
-    fin.read(reinterpret_cast<char *>(matrix.data()),dataSize);
+    // data, in pieces: the size is only trustworthy once the data is there.
+    const boost::uint64_t size = static_cast<boost::uint64_t>(rows) * cols;
+    std::vector<double> data;
+    while(data.size() < size)
+    {
+      const size_t offset = data.size();
+      data.resize(std::min<boost::uint64_t>(size, offset + s_readChunkSize / sizeof(double)));
+      fin.read(reinterpret_cast<char *>(&data[offset]), (data.size() - offset) * sizeof(double));
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a matrix block");
+    }
+    matrix = Eigen::Map<const Eigen::MatrixXd>(data.data(), rows, cols);
   }
 
   void MatrixArchive::writeStringBlock(std::ostream & fout, std::string const & name, std::string const & stringValue) const
@@ -279,9 +289,17 @@ namespace sm
     boost::uint32_t stringSize;
     fin.read(reinterpret_cast<char *>(&stringSize),4);
 
-    // data
-    stringValue.resize(stringSize);
-    fin.read(&stringValue[0], stringSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a string block");
+
+    // data, in pieces: the size is only trustworthy once the data is there.
+    stringValue.clear();
+    while(stringValue.size() < stringSize)
+    {
+      const size_t offset = stringValue.size();
+      stringValue.resize(std::min<size_t>(stringSize, offset + s_readChunkSize));
+      fin.read(&stringValue[offset], stringValue.size() - offset);
+      SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a string block");
+    }
   }
 
   MatrixArchive::BlockType MatrixArchive::readBlock(std::istream & fin, std::string & name, Eigen::MatrixXd & matrix, std::string & stringValue) const
@@ -289,6 +307,7 @@ namespace sm
     char start, end;
     // start character
     fin.read(&start,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "Unable to read a block");
     BlockType blockType;
     if(start == s_magicCharStartAStringBlock){
       blockType = STRING;
@@ -302,6 +321,7 @@ namespace sm
     char nameBuffer[s_fixedNameSize + 1];
     nameBuffer[s_fixedNameSize] = '\0';
     fin.read(nameBuffer,(std::streamsize)s_fixedNameSize);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within the name of a block");
     name = nameBuffer;
     boost::trim(name);
 
@@ -316,6 +336,7 @@ namespace sm
 
     // end character
     fin.read(&end,1);
+    SM_ASSERT_TRUE(MatrixArchiveException, fin.good(), "The file ended within a block");
     SM_ASSERT_EQ(MatrixArchiveException, end, s_magicCharEnd, "The matrix block didn't end with the expected character");
     return blockType;
   }
-- 
2.43.0


From 627b7076dd5cf66fa700d8f6898b695a22acbdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 032/101] fix: getChildren must split keys at '/' only

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 7ff500b..4810f95 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -268,8 +268,7 @@ namespace sm {
       }
     }
     if (!k.empty()){
-      std::replace(k.begin(), k.end(), '/', '.');
-      pt = & _ptree.get_child(k);
+      pt = & _ptree.get_child(ptree::path_type(k, '/'));
     }
     for(auto& p : *pt){
       ret.push_back({p.first, PropertyTree(boost::make_shared<BoostPropertyTreeImplementation>(p.second), "")});
-- 
2.43.0


From 80a5482a6dc7c53636eea22ee2a41ad361061264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 033/101] fix: update must not split keys at '.'

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 4810f95..dbc2ba5 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -288,7 +288,7 @@ namespace sm {
 
     method(childPath, child);
     for(ptree::const_iterator it=child.begin();it!=child.end();++it) {
-      ptree::path_type curPath = childPath / ptree::path_type(it->first);
+      ptree::path_type curPath = childPath / ptree::path_type(it->first, '/');
       traverse_recursive(curPath, it->second, method);
     }
   }
@@ -308,7 +308,7 @@ namespace sm {
   template<typename T>
   void traverse(const boost::property_tree::ptree &parent, T method)
   {
-    traverse_recursive("", parent, method);
+    traverse_recursive(boost::property_tree::ptree::path_type("", '/'), parent, method);
   }
 
   void BoostPropertyTreeImplementation::update(const BoostPropertyTreeImplementation & with, bool createIfNecessary, bool ignoreEmptyUpdates){
-- 
2.43.0


From 5f4194fc64a356a0b21b1bce5584efb38e1a9151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 034/101] fix: saving a property tree must report what could
 not be written

---
 .../src/BoostPropertyTreeImplementation.cpp   | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index dbc2ba5..dc3df9e 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -1,6 +1,7 @@
 #include <sm/BoostPropertyTree.hpp>
 #include <sm/BoostPropertyTreeImplementation.hpp>
 
+#include <fstream>
 #include <sstream>
 #include <boost/make_shared.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -13,6 +14,26 @@ using boost::property_tree::json_parser::read_json;
 
 namespace sm {
 
+  namespace {
+    // The file variants of boost's write functions do not notice that the buffered end of a file could not be written.
+    template <typename Error, typename Write>
+    void writeFile(const boost::filesystem::path & fileName, Write write) {
+      std::ofstream stream(fileName.string().c_str());
+      if(!stream) {
+        throw Error("cannot open file", fileName.string(), 0);
+      }
+      try {
+        write(stream);
+      } catch(const Error & e) {
+        throw Error(e.message(), fileName.string(), e.line());
+      }
+      stream.close();
+      if(!stream) {
+        throw Error("write error", fileName.string(), 0);
+      }
+    }
+  }
+
   BoostPropertyTreeImplementation::BoostPropertyTreeImplementation()
   {
 
@@ -105,7 +126,7 @@ namespace sm {
   }
 
   void BoostPropertyTreeImplementation::saveJson(const boost::filesystem::path& fileName) const {
-    boost::property_tree::write_json(fileName.string(), _ptree);
+    writeFile<boost::property_tree::json_parser_error>(fileName, [this](std::ostream & out) { boost::property_tree::write_json(out, _ptree); });
   }
 
 
@@ -123,18 +144,19 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveXml(const boost::filesystem::path & fileName) const
   {
-    if(BoostPropertyTree::isHumanReadableInputOutput()){
+    writeFile<boost::property_tree::xml_parser_error>(fileName, [this](std::ostream & out) {
+      if(BoostPropertyTree::isHumanReadableInputOutput()){
 #if BOOST_VERSION >= 105600
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(),
-                                      boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
+        boost::property_tree::write_xml(out, _ptree, boost::property_tree::xml_writer_make_settings<ptree::key_type>('\t', 1));
 #else
-      boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
-      boost::property_tree::write_xml(fileName.string(), _ptree, std::locale(), settings);
+        boost::property_tree::xml_writer_settings<ptree::key_type::value_type> settings('\t', 1);
+        boost::property_tree::write_xml(out, _ptree, settings);
 #endif
-    }
-    else {
-      boost::property_tree::write_xml(fileName.string(), _ptree);
-    }
+      }
+      else {
+        boost::property_tree::write_xml(out, _ptree);
+      }
+    });
   }
 
   void BoostPropertyTreeImplementation::loadIni(const boost::filesystem::path & fileName)
@@ -144,7 +166,7 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveIni(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_ini(fileName.string(), _ptree);
+    writeFile<boost::property_tree::ini_parser_error>(fileName, [this](std::ostream & out) { boost::property_tree::write_ini(out, _ptree); });
   }
 
 
@@ -155,7 +177,7 @@ namespace sm {
 
   void BoostPropertyTreeImplementation::saveInfo(const boost::filesystem::path & fileName) const
   {
-    boost::property_tree::write_info(fileName.string(), _ptree);
+    writeFile<boost::property_tree::info_parser_error>(fileName, [this](std::ostream & out) { boost::property_tree::write_info(out, _ptree); });
   }
 
   std::string BoostPropertyTreeImplementation::asInfoString() const {
-- 
2.43.0


From 09850f313cf2acb77a84fbcfb0a4bcbd066c9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 035/101] fix: the loader must recognize files by path, not by
 name

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index a6128f6..50aa0eb 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -46,6 +46,10 @@ class UpdateablePropertyTree {
     }
 
     std::string configFileFullPath = ptl.resolveFullFilePath(configFile, relativeToFile);
+    // The same name can mean different files (relative to different files), and different names the same file.
+    if (!ignore.insert(boost::filesystem::path(configFileFullPath).lexically_normal().string() + (updateOnly ? "!" : "")).second) {
+      return;
+    }
     ptl.verbose("Resolved '" + configFile + "' to '" + configFileFullPath + "'.");
 
     sm::BoostPropertyTree pt;
@@ -69,9 +73,6 @@ class UpdateablePropertyTree {
   void readFiles(const std::vector<std::string> & configFiles, std::set<std::string> & ignore, const std::string & relativeToFile) {
     for(auto configFile : configFiles) {
       if(configFile.empty()) continue;
-      if(ignore.count(configFile)) continue;
-      ignore.insert(configFile);
-
       loadConfigFileWithParents(configFile, ignore, relativeToFile);
     }
   }
-- 
2.43.0


From 87dfca80dd9e44b886ad2e7f228deb3cc7de445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 036/101] fix: the loader must ask fileExists also on the
 search path

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index 50aa0eb..787309a 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -136,7 +136,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
   for( auto & bp : getSearchPaths()){
     for(auto & infix : getFileNameInfixes()){
       candidate = bp + "/" + (infix.empty() ? "" : infix + "/") + path;
-      if(boost::filesystem::exists(candidate)){
+      if(fileExists(candidate)){
         return candidate;
       }
     }
-- 
2.43.0


From 8d0bdcd128a474245b096b6234fec73270cb561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 037/101] fix: names relative to a file without directory must
 not be looked up in the root directory

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index 787309a..e729bf5 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -122,7 +122,7 @@ std::string BoostPropertyTreeLoader::resolveFullFilePath(const std::string& path
       return path;
     } else {
       std::string dir = boost::filesystem::path(relativeToFile).remove_filename().string();
-      std::string candidate = dir + '/' + path;
+      std::string candidate = dir.empty() ? path : dir + '/' + path;
       if (fileExists(candidate)) {
         return candidate;
       }
-- 
2.43.0


From bd894c1ba88c12b232916f9777927d5fc419d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 038/101] fix: a LayeredValueStore without layers must not
 invent values

---
 sm_value_store/src/ValueStore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index cb496ca..c6307f7 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -59,7 +59,10 @@ ValueHandle<V> LayeredValueStore::getFromLayers(const std::string & path, boost:
      return ((&(*vs))->*Func)(path, def);
    }
  }
- return V(); // dummy, will never happen
+ if(def) {
+   return *def;
+ }
+ SM_THROW(std::runtime_error, "There is no layer to get '" << path << "' from.");
 }
 
 bool LayeredValueStore::isChildSupported() const {
-- 
2.43.0


From a7dcfa6358b71bb60b39fdd4abff92e62773fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 039/101] fix: PrefixedValueStore must not use an uninitialised
 flag

---
 sm_value_store/src/PrefixedValueStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index bb8a85f..4a49d90 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -45,6 +45,9 @@ std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
 std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPossiblePtr) const {
   switch(mode_){
     case PrefixMode::ADD:
+      if(isPossiblePtr) {
+        *isPossiblePtr = true;
+      }
       return prefix_ + path;
     case PrefixMode::REMOVE:
       if (path.size() >= prefix_.size() && path.substr(0, prefix_.size()) == prefix_) {
-- 
2.43.0


From 6f4cf5d54efd0ddc136041ab7b7dc26ed83c8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 040/101] fix: a prefix-removing store must answer for the
 prefix itself and honour defaults

---
 .../sm/value_store/PrefixedValueStore.hpp     |  3 +++
 sm_value_store/src/PrefixedValueStore.cpp     | 23 +++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
index 3fac0b8..cf1745a 100644
--- a/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
+++ b/sm_value_store/include/sm/value_store/PrefixedValueStore.hpp
@@ -26,6 +26,9 @@ class PrefixedValueStore : public ValueStore {
   std::vector<KeyValueStorePair> getChildren() const override;
   bool isChildSupported() const override;
  private:
+  template <typename V, ValueHandle<V> (ValueStore::* Func)(const std::string &, boost::optional<V>) const>
+  ValueHandle<V> getFromPrefixed(const std::string & path, boost::optional<V> def) const;
+
   std::string applyPrefix(const std::string & path, bool* isPossiblePtr = nullptr) const;
   ValueStore::SharedPtr vs_;
   std::string prefix_;
diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 4a49d90..1a8178e 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -8,17 +8,27 @@
 namespace sm {
 namespace value_store {
 
+template <typename V, ValueHandle<V> (ValueStore::* Func)(const std::string &, boost::optional<V>) const>
+ValueHandle<V> PrefixedValueStore::getFromPrefixed(const std::string & path, boost::optional<V> def) const {
+  if(def) {
+    bool isPossible;
+    auto && prefixedPath = applyPrefix(path, &isPossible);
+    return isPossible ? (vs_.get()->*Func)(prefixedPath, def) : ValueHandle<V>(*def);
+  }
+  return (vs_.get()->*Func)(applyPrefix(path), def);
+}
+
 ValueHandle<bool> PrefixedValueStore::getBool(const std::string & path, boost::optional<bool> def) const {
-  return vs_->getBool(applyPrefix(path), def);
+  return getFromPrefixed<bool, &ValueStore::getBool>(path, def);
 }
 ValueHandle<int> PrefixedValueStore::getInt(const std::string & path, boost::optional<int> def) const {
-  return vs_->getInt(applyPrefix(path), def);
+  return getFromPrefixed<int, &ValueStore::getInt>(path, def);
 }
 ValueHandle<double> PrefixedValueStore::getDouble(const std::string & path, boost::optional<double> def) const {
-  return vs_->getDouble(applyPrefix(path), def);
+  return getFromPrefixed<double, &ValueStore::getDouble>(path, def);
 }
 ValueHandle<std::string> PrefixedValueStore::getString(const std::string & path, boost::optional<std::string> def) const {
-  return vs_->getString(applyPrefix(path), def);
+  return getFromPrefixed<std::string, &ValueStore::getString>(path, def);
 }
 bool PrefixedValueStore::hasKey(const std::string& path) const {
   bool isPossible;
@@ -56,8 +66,11 @@ std::string PrefixedValueStore::applyPrefix(const std::string& path, bool* isPos
         }
         return path.substr(prefix_.size());
       } else {
+        const bool isPossible = path.size() == prefix_.size() - 1 && path + "/" == prefix_;
         if(isPossiblePtr) {
-          *isPossiblePtr = path.size() == prefix_.size() - 1 && path + "/" == prefix_;
+          *isPossiblePtr = isPossible;
+        }
+        if(isPossible || isPossiblePtr) {
           return std::string();
         } else {
           SM_THROW(std::runtime_error, "path does not contain the prefix (" << prefix_ << "): " << path);
-- 
2.43.0


From 965f8f755152b8b308dca486c3e55686d43c4828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 041/101] fix: children of a prefix-removing store must see the
 keys the store has

---
 sm_value_store/src/PrefixedValueStore.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index 1a8178e..f38bfb2 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -40,10 +40,17 @@ KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
   bool isPossible;
   auto && prefixedKey = applyPrefix(key, &isPossible);
   if(isPossible){
-    if(PrefixMode::REMOVE == mode_ && (prefixedKey.empty() || prefixedKey == "/")){
-      return KeyValueStorePair(key, vs_);
+    if(PrefixMode::REMOVE == mode_) {
+      if(prefixedKey.empty() || prefixedKey == "/"){
+        return KeyValueStorePair(key, vs_);
+      }
+      // The prefix is removed completely here, so the child does not have one.
+      return KeyValueStorePair(key, ValueStoreRef(vs_).getChild(prefixedKey));
     }
     return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefixedKey));
+  } else if(PrefixMode::REMOVE == mode_ && !key.empty() && prefix_.compare(0, key.size() + 1, key + "/") == 0) {
+    // The rest of the prefix is left for the child to remove.
+    return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefix_.substr(key.size() + 1, prefix_.size() - key.size() - 2)));
   } else {
     return KeyValueStorePair(key, ValueStoreRef());
   }
-- 
2.43.0


From 9447d943dfddf594cf855bf128245265212d8d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 042/101] fix: the alert argument of a missing path is not a
 path

---
 sm_value_store/src/ValueStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_value_store/src/ValueStore.cpp b/sm_value_store/src/ValueStore.cpp
index c6307f7..043a659 100644
--- a/sm_value_store/src/ValueStore.cpp
+++ b/sm_value_store/src/ValueStore.cpp
@@ -131,8 +131,8 @@ std::string ValueStoreRef::findPathAndAlert(const std::vector<std::string> & pat
     const std::string & p = pathsAndDeprecationWarnings[i];
     if(!p.empty() && p[0] == '!') {
       std::string pp = p.substr(1);
+      i++; // skip deprecation message in the input
       if (hasKey(pp)) {
-        i++; // skip deprecation message in the input
         std::string message = i < pathsAndDeprecationWarnings.size() ?
             pathsAndDeprecationWarnings[i] :
             "Property name '" + pp + "' is deprecated! Use "
-- 
2.43.0


From a457023a638cd310c68c8874c6a814ea08076335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 043/101] fix: the loader must recognize a file named
 absolutely and relatively

---
 sm_property_tree/src/BoostPropertyTreeLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeLoader.cpp b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
index e729bf5..e03347e 100644
--- a/sm_property_tree/src/BoostPropertyTreeLoader.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeLoader.cpp
@@ -47,7 +47,7 @@ class UpdateablePropertyTree {
 
     std::string configFileFullPath = ptl.resolveFullFilePath(configFile, relativeToFile);
     // The same name can mean different files (relative to different files), and different names the same file.
-    if (!ignore.insert(boost::filesystem::path(configFileFullPath).lexically_normal().string() + (updateOnly ? "!" : "")).second) {
+    if (!ignore.insert(boost::filesystem::absolute(configFileFullPath).lexically_normal().string() + (updateOnly ? "!" : "")).second) {
       return;
     }
     ptl.verbose("Resolved '" + configFile + "' to '" + configFileFullPath + "'.");
-- 
2.43.0


From 09113f36e69a5c60d155df5a28fa6926e807acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 044/101] fix: loadString must merge phrases with a common
 prefix

---
 .../src/BoostPropertyTreeImplementation.cpp     | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index dc3df9e..47b1632 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -186,6 +186,18 @@ namespace sm {
     return iss.str();
   }
 
+  // Phrases with a common prefix (a/b=1,a/c=2) give siblings of the same name, of which only the first can be found.
+  static void mergeSiblings(boost::property_tree::ptree & dest, const boost::property_tree::ptree & source) {
+    for(auto & child : source) {
+      auto it = dest.find(child.first);
+      boost::property_tree::ptree & d = it != dest.not_found() ? it->second : dest.push_back({child.first, boost::property_tree::ptree()})->second;
+      if(child.second.empty() || !child.second.data().empty()) {
+        d.data() = child.second.data();
+      }
+      mergeSiblings(d, child.second);
+    }
+  }
+
   void BoostPropertyTreeImplementation::loadString(const std::string & string){
     if(string.find('"') != string.npos) {
       throw boost::property_tree::file_parser_error("No escaped strings supported with loadString, yet.", string, 0);
@@ -236,7 +248,10 @@ namespace sm {
       }
       pos ++;
     }
-    boost::property_tree::read_info(s, _ptree);
+    ptree pt, merged;
+    boost::property_tree::read_info(s, pt);
+    mergeSiblings(merged, pt);
+    _ptree.swap(merged);
   }
 
   void BoostPropertyTreeImplementation::setDouble(const std::string & key, double value)
-- 
2.43.0


From 70aa65124c1d9c54dfa8c53313c7b934621c2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 045/101] fix: getChildren of the root namespace reads before
 an empty key

---
 sm_property_tree/src/BoostPropertyTreeImplementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
index 47b1632..6372c20 100644
--- a/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
+++ b/sm_property_tree/src/BoostPropertyTreeImplementation.cpp
@@ -300,7 +300,7 @@ namespace sm {
     std::string k;
     if(!key.empty()){
       k = key[0] == '/' ? key.substr(1) : key;
-      if (k.back() == '/'){
+      if (!k.empty() && k.back() == '/'){
         k.resize(k.size() - 1);
       }
     }
-- 
2.43.0


From 52076235aa5ef859cba2ff9d2a8f002b1bf6c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 046/101] fix: a child outside the prefix of a prefix-removing
 store must not have a value

---
 sm_value_store/src/PrefixedValueStore.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_value_store/src/PrefixedValueStore.cpp b/sm_value_store/src/PrefixedValueStore.cpp
index f38bfb2..5279fc6 100644
--- a/sm_value_store/src/PrefixedValueStore.cpp
+++ b/sm_value_store/src/PrefixedValueStore.cpp
@@ -1,4 +1,5 @@
 #include <sm/value_store/PrefixedValueStore.hpp>
+#include <sm/value_store/LayeredValueStore.hpp>
 
 #include <unordered_map>
 #include <string>
@@ -52,7 +53,8 @@ KeyValueStorePair PrefixedValueStore::getChild(const std::string & key) const {
     // The rest of the prefix is left for the child to remove.
     return KeyValueStorePair(key, std::make_shared<PrefixedValueStore>(vs_, mode_, prefix_.substr(key.size() + 1, prefix_.size() - key.size() - 2)));
   } else {
-    return KeyValueStorePair(key, ValueStoreRef());
+    // Nothing is there, not even an empty value.
+    return KeyValueStorePair(key, std::make_shared<LayeredValueStore>());
   }
 }
 std::vector<KeyValueStorePair> PrefixedValueStore::getChildren() const {
-- 
2.43.0


From 66255f79665e385990fdca8908e354e853acbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 047/101] fix: a layered child must list its children when a
 layer does not have it

---
 sm_value_store/src/PropertyTreeValueStore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_value_store/src/PropertyTreeValueStore.cpp b/sm_value_store/src/PropertyTreeValueStore.cpp
index 16cd2e1..c186421 100644
--- a/sm_value_store/src/PropertyTreeValueStore.cpp
+++ b/sm_value_store/src/PropertyTreeValueStore.cpp
@@ -87,6 +87,7 @@ bool PropertyTreeValueStore::hasKey(const std::string& path) const {
 }
 
 std::vector<KeyValueStorePair> PropertyTreeValueStore::getChildren() const {
+  if(!hasKey("")) return {}; // e.g. the child of a layered store that only other layers have
   auto children = PropertyTree::getChildren();
   std::vector<KeyValueStorePair> ret;
   ret.reserve(children.size());
@@ -125,6 +126,7 @@ ExtendibleKeyValueStorePair PropertyTreeValueStore::getExtendibleChild(const std
 }
 
 std::vector<ExtendibleKeyValueStorePair> PropertyTreeValueStore::getExtendibleChildren() const {
+  if(!hasKey("")) return {};
   auto children = PropertyTree::getChildren();
   std::vector<ExtendibleKeyValueStorePair> ret;
   ret.reserve(children.size());
-- 
2.43.0


From 89608b78667748f0b171d6013f23c5fb567a4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 048/101] fix: enabling a named stream must not deadlock with
 another thread's first log statement

---
 sm_logging/src/LoggingGlobals.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index a9ab08e..d794e67 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -105,17 +105,23 @@ namespace sm {
         }
 
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            _namedStreamsEnabled.insert(name);
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                _namedStreamsEnabled.insert(name);
+            }
+            // Not under the lock: this takes _locations_mutex, which is taken before _named_stream_mutex elsewhere.
             notifyLoggerLevelsChanged();
         }
 
         void LoggingGlobals::disableNamedStream( const std::string & name ) {
-            boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-            std::set< std::string >::iterator it = _namedStreamsEnabled.find(name);
-            if(it != _namedStreamsEnabled.end())
+            bool wasEnabled;
+            {
+                boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
+                wasEnabled = _namedStreamsEnabled.erase(name) > 0;
+            }
+            if(wasEnabled)
             {
-                _namedStreamsEnabled.erase(it);
+                // Not under the lock: this takes _locations_mutex, which is taken before _named_stream_mutex elsewhere.
                 notifyLoggerLevelsChanged();
             }
         }
-- 
2.43.0


From 87b5bc1d48de5dc45f75bdd79f715c0bc733751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 049/101] fix: the logging level and the state of log
 statements must not be raced on

---
 sm_logging/include/sm/logging/LogLocation.hpp    | 12 +++++++++---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LogLocation.hpp b/sm_logging/include/sm/logging/LogLocation.hpp
index 6ebb9f3..aad86f9 100644
--- a/sm_logging/include/sm/logging/LogLocation.hpp
+++ b/sm_logging/include/sm/logging/LogLocation.hpp
@@ -1,6 +1,11 @@
 #ifndef SM_LOGGING_LOG_LOCATION_HPP
 #define SM_LOGGING_LOG_LOCATION_HPP
 
+#include <atomic>
+#include <string>
+
+#include <sm/logging/Levels.hpp>
+
 namespace sm {
     namespace logging {
         struct LogLocation
@@ -8,9 +13,10 @@ namespace sm {
             LogLocation() : _initialized(false), _loggerEnabled(false),
                             _level(::sm::logging::levels::Count) {}
 
-            bool _initialized;
-            bool _loggerEnabled;
-            ::sm::logging::Level _level;
+            // Log statements read these while other threads change them.
+            std::atomic<bool> _initialized;
+            std::atomic<bool> _loggerEnabled;
+            std::atomic< ::sm::logging::Level> _level;
             std::string _streamName;
         };
 
diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index ea232f1..cfe255a 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -4,6 +4,7 @@
 #include <boost/shared_ptr.hpp>
 #include <boost/thread/mutex.hpp>
 
+#include <atomic>
 #include <stdarg.h>
 #include <vector>
 #include <set>
@@ -87,11 +88,11 @@ namespace sm {
             void print(const char * streamName,  Level level, 
                        vectorstream & ss, const char* file, int line, const char* function);
 
-            Level _level;
+            std::atomic<Level> _level;
             
             boost::shared_ptr<Logger> _logger;
 
-            bool _shutting_down;
+            std::atomic<bool> _shutting_down;
 
             boost::mutex _init_mutex;
 
-- 
2.43.0


From 9e1fff7eb8d7e7cfd3270d0a2d28fa0de1e5dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 050/101] fix: replacing the logger must not race with log
 statements

---
 sm_logging/include/sm/logging/LoggingGlobals.hpp |  1 +
 sm_logging/include/sm/logging/console.hpp        |  4 ++--
 sm_logging/src/LoggingGlobals.cpp                | 10 +++++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index cfe255a..de2af4e 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -90,6 +90,7 @@ namespace sm {
 
             std::atomic<Level> _level;
             
+            boost::mutex _logger_mutex;
             boost::shared_ptr<Logger> _logger;
 
             std::atomic<bool> _shutting_down;
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index a3ee496..bea4285 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -177,7 +177,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
@@ -197,7 +197,7 @@ namespace sm
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
         static double last_hit = 0.0;                                   \
-        double now = ::sm::logging::g_logging_globals._logger->currentTimeSecondsUtc(); \
+        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
         if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
         {                                                               \
             last_hit = now;                                             \
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index d794e67..31f38cf 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -192,7 +192,8 @@ namespace sm {
 
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], _logger->currentTimeString() ) );
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &_globalCharBuffer[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -225,7 +226,8 @@ namespace sm {
             _printing_thread_id = boost::this_thread::get_id();
             try
             {
-                _logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], _logger->currentTimeString() ) );
+                boost::shared_ptr<Logger> logger = getLogger();
+                logger->log( LoggingEvent( streamName, level, file, line, function, &str[0], logger->currentTimeString() ) );
             }
             catch (std::exception& e)
             {
@@ -256,11 +258,13 @@ namespace sm {
         {
             if(logger.get())
             {
-                _logger = logger;
+                boost::mutex::scoped_lock lock(_logger_mutex);
+                _logger.swap(logger); // the old logger is released after the lock
             }
         }
         boost::shared_ptr<Logger> LoggingGlobals::getLogger()
         {
+            boost::mutex::scoped_lock lock(_logger_mutex);
             return _logger;
         }
 
-- 
2.43.0


From 44dd054948410ed3fd0b4104fc59aa9695ee6135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 051/101] fix: a thread must keep logging after an exception
 left a log statement

---
 .../include/sm/logging/LoggingGlobals.hpp     |  3 ++-
 sm_logging/src/LoggingGlobals.cpp             | 22 +++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index de2af4e..a4fbb00 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <stdarg.h>
+#include <thread>
 #include <vector>
 #include <set>
 
@@ -106,7 +107,7 @@ namespace sm {
             
             std::vector<char> _globalCharBuffer;
             boost::mutex _print_mutex;
-            boost::thread::id _printing_thread_id;
+            std::atomic<std::thread::id> _printing_thread_id;
 
 
         };
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index 31f38cf..b174d65 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -6,6 +6,15 @@ namespace sm {
 
         LoggingGlobals g_logging_globals;
 
+        namespace {
+            // Marks the current thread as the printing one, until the end of the scope however it is left.
+            struct PrintingThread
+            {
+                explicit PrintingThread(std::atomic<std::thread::id> & id) : _id(id) { _id = std::this_thread::get_id(); }
+                ~PrintingThread() { _id = std::thread::id(); }
+                std::atomic<std::thread::id> & _id;
+            };
+        }
 
 
         LoggingGlobals::LoggingGlobals()
@@ -173,7 +182,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -181,7 +190,7 @@ namespace sm {
 
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThread printing(_printing_thread_id);
 
             va_list args;
             va_start(args, fmt);
@@ -199,9 +208,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-
-            _printing_thread_id = boost::thread::id();
         }
 
         void LoggingGlobals::print(const char * streamName,  Level level, 
@@ -210,7 +216,7 @@ namespace sm {
             if (_shutting_down)
                 return;
 
-            if (_printing_thread_id == boost::this_thread::get_id())
+            if (_printing_thread_id == std::this_thread::get_id())
             {
                 fprintf(stderr, "Warning: recursive print statement has occurred.  Throwing out recursive print.\n");
                 return;
@@ -223,7 +229,7 @@ namespace sm {
             
             boost::mutex::scoped_lock lock(_print_mutex);
 
-            _printing_thread_id = boost::this_thread::get_id();
+            PrintingThread printing(_printing_thread_id);
             try
             {
                 boost::shared_ptr<Logger> logger = getLogger();
@@ -233,8 +239,6 @@ namespace sm {
             {
                 fprintf(stderr, "Caught exception while logging: [%s]\n", e.what());
             }
-                    
-            _printing_thread_id = boost::thread::id();
         }
 
 
-- 
2.43.0


From befb5acbe489192148e7fc5d651d99aa4c4f01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 052/101] fix: once and throttled statements must print once
 when threads race for them

---
 sm_logging/include/sm/logging/console.hpp | 37 ++++++++++++++---------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index bea4285..6646680 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -32,6 +32,7 @@
 #ifndef SMCONSOLE_SMCONSOLE_H
 #define SMCONSOLE_SMCONSOLE_H
 
+#include <atomic>
 #include <cstdio>
 #include <sstream>
 
@@ -54,9 +55,19 @@ namespace sm
 
     namespace logging
     {
-
-
-
+        /// Does a throttled statement that was last printed at lastHit print now? Of several threads only one gets the turn.
+        inline bool takeTurn(std::atomic<double> & lastHit, double rate, double now)
+        {
+            double last = lastHit;
+            while (last + rate <= now)
+            {
+                if (lastHit.compare_exchange_weak(last, now))
+                {
+                    return true;
+                }
+            }
+            return false;
+        }
     } // namespace logging
 } // namespace sm
 
@@ -139,10 +150,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);                       \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true))) \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
     } while(0)
@@ -157,10 +167,9 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static bool hit = false;                        \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit))  \
+        static std::atomic<bool> hit(false);                       \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true))) \
         {                                               \
-            hit = true;                                 \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
     } while(0)
@@ -176,11 +185,10 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(::sm::logging::takeTurn(last_hit, rate, now))) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
     } while(0)
@@ -196,11 +204,10 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static double last_hit = 0.0;                                   \
+        static std::atomic<double> last_hit(0.0);                       \
         double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(last_hit + rate <= now)) \
+        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(::sm::logging::takeTurn(last_hit, rate, now))) \
         {                                                               \
-            last_hit = now;                                             \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
     } while(0)
-- 
2.43.0


From 504b62d8c8c0796654d9747514c2d296a9967e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 053/101] fix: log statements must not capture variables named
 enabled, loc, now, hit or last_hit

---
 sm_logging/include/sm/logging/console.hpp | 44 +++++++++++------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 6646680..1a27428 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -76,20 +76,20 @@ namespace sm
 
 
 #define SMCONSOLE_DEFINE_LOCATION(cond, level, name)                    \
-    static ::sm::logging::LogLocation loc;                              \
-    if (SM_UNLIKELY(!loc._initialized))                                 \
+    static ::sm::logging::LogLocation loc___;                           \
+    if (SM_UNLIKELY(!loc___._initialized))                              \
     {                                                                   \
-        ::sm::logging::g_logging_globals.initializeLogLocation(&loc, name, level); \
+        ::sm::logging::g_logging_globals.initializeLogLocation(&loc___, name, level); \
     }                                                                   \
-    if (SM_UNLIKELY(loc._level != level))                               \
+    if (SM_UNLIKELY(loc___._level != level))                            \
     {                                                                   \
-        ::sm::logging::g_logging_globals.setLogLocationLevel(&loc, level);             \
-        ::sm::logging::g_logging_globals.checkLogLocationEnabled(&loc);                \
+        ::sm::logging::g_logging_globals.setLogLocationLevel(&loc___, level);          \
+        ::sm::logging::g_logging_globals.checkLogLocationEnabled(&loc___);             \
     }                                                                   \
-    bool enabled = loc._loggerEnabled && (cond);
+    bool enabled___ = loc___._loggerEnabled && (cond);
 
 #define SMCONSOLE_PRINT_AT_LOCATION(...)                      \
-    ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
+    ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), loc___._level, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
 
 
 #define SMCONSOLE_PRINT_STREAM_AT_LOCATION(args)                        \
@@ -97,7 +97,7 @@ namespace sm
     {                                                                   \
         ::sm::logging::vectorstream ss___;                              \
          ss___ << args;                                                 \
-        ::sm::logging::g_logging_globals.print(loc._streamName.c_str(), loc._level, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
+        ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), loc___._level, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
     } while (0)
 
 
@@ -115,7 +115,7 @@ namespace sm
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(cond, level, name);   \
                                                         \
-        if (SM_UNLIKELY(enabled))                       \
+        if (SM_UNLIKELY(enabled___))                    \
         {                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
@@ -134,7 +134,7 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(cond, level, name);   \
-        if (SM_UNLIKELY(enabled))                       \
+        if (SM_UNLIKELY(enabled___))                    \
         {                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
@@ -150,8 +150,8 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static std::atomic<bool> hit(false);                       \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true))) \
+        static std::atomic<bool> hit___(false);                    \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(!hit___.exchange(true))) \
         {                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);   \
         }                                               \
@@ -167,8 +167,8 @@ namespace sm
     do                                                  \
     {                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);   \
-        static std::atomic<bool> hit(false);                       \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(!hit.exchange(true))) \
+        static std::atomic<bool> hit___(false);                    \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(!hit___.exchange(true))) \
         {                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                               \
@@ -185,9 +185,9 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static std::atomic<double> last_hit(0.0);                       \
-        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(::sm::logging::takeTurn(last_hit, rate, now))) \
+        static std::atomic<double> last_hit___(0.0);                    \
+        double now___ = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(::sm::logging::takeTurn(last_hit___, rate, now___))) \
         {                                                               \
             SMCONSOLE_PRINT_AT_LOCATION(__VA_ARGS__);                   \
         }                                                               \
@@ -204,9 +204,9 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        static std::atomic<double> last_hit(0.0);                       \
-        double now = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
-        if (SM_UNLIKELY(enabled) && SM_UNLIKELY(::sm::logging::takeTurn(last_hit, rate, now))) \
+        static std::atomic<double> last_hit___(0.0);                    \
+        double now___ = ::sm::logging::g_logging_globals.getLogger()->currentTimeSecondsUtc(); \
+        if (SM_UNLIKELY(enabled___) && SM_UNLIKELY(::sm::logging::takeTurn(last_hit___, rate, now___))) \
         {                                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);                   \
         }                                                               \
@@ -224,7 +224,7 @@ namespace sm
     do                                                                  \
     {                                                                   \
         SMCONSOLE_DEFINE_LOCATION(true, level, name);                   \
-        if (SM_UNLIKELY(enabled) )                                      \
+        if (SM_UNLIKELY(enabled___) )                                   \
         {                                                               \
             SMCONSOLE_PRINT_STREAM_AT_LOCATION(args);   \
         }                                                               \
-- 
2.43.0


From 7e0691d080597c7168cf78a9d728bfd1c4fb6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 054/101] fix: threads logging at different levels through one
 statement must not affect each other

---
 .../include/sm/logging/LoggingGlobals.hpp       |  5 +++++
 sm_logging/include/sm/logging/console.hpp       | 17 ++++++++---------
 sm_logging/src/LoggingGlobals.cpp               |  6 +++++-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/sm_logging/include/sm/logging/LoggingGlobals.hpp b/sm_logging/include/sm/logging/LoggingGlobals.hpp
index a4fbb00..9a10c42 100644
--- a/sm_logging/include/sm/logging/LoggingGlobals.hpp
+++ b/sm_logging/include/sm/logging/LoggingGlobals.hpp
@@ -70,6 +70,11 @@ namespace sm {
         
             bool isNamedStreamEnabled( const std::string & name );
 
+            /**
+             * \brief Is a statement with this level and stream name (empty: none) enabled?
+             */
+            bool isEnabled( Level level, const std::string & streamName );
+
             void enableNamedStream( const std::string & name );
 
             void disableNamedStream( const std::string & name );
diff --git a/sm_logging/include/sm/logging/console.hpp b/sm_logging/include/sm/logging/console.hpp
index 1a27428..af56ab6 100644
--- a/sm_logging/include/sm/logging/console.hpp
+++ b/sm_logging/include/sm/logging/console.hpp
@@ -77,19 +77,18 @@ namespace sm
 
 #define SMCONSOLE_DEFINE_LOCATION(cond, level, name)                    \
     static ::sm::logging::LogLocation loc___;                           \
+    const ::sm::logging::Level level___ = level;                        \
     if (SM_UNLIKELY(!loc___._initialized))                              \
     {                                                                   \
-        ::sm::logging::g_logging_globals.initializeLogLocation(&loc___, name, level); \
+        ::sm::logging::g_logging_globals.initializeLogLocation(&loc___, name, level___); \
     }                                                                   \
-    if (SM_UNLIKELY(loc___._level != level))                            \
-    {                                                                   \
-        ::sm::logging::g_logging_globals.setLogLocationLevel(&loc___, level);          \
-        ::sm::logging::g_logging_globals.checkLogLocationEnabled(&loc___);             \
-    }                                                                   \
-    bool enabled___ = loc___._loggerEnabled && (cond);
+    /* The level can change from call to call, and differ between threads. */ \
+    bool enabled___ = (SM_LIKELY(loc___._level == level___)             \
+                       ? loc___._loggerEnabled.load()                   \
+                       : ::sm::logging::g_logging_globals.isEnabled(level___, loc___._streamName)) && (cond);
 
 #define SMCONSOLE_PRINT_AT_LOCATION(...)                      \
-    ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), loc___._level, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
+    ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), level___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__, __VA_ARGS__)
 
 
 #define SMCONSOLE_PRINT_STREAM_AT_LOCATION(args)                        \
@@ -97,7 +96,7 @@ namespace sm
     {                                                                   \
         ::sm::logging::vectorstream ss___;                              \
          ss___ << args;                                                 \
-        ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), loc___._level, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
+        ::sm::logging::g_logging_globals.print(loc___._streamName.c_str(), level___, ss___, __FILE__, __LINE__, __SMCONSOLE_FUNCTION__); \
     } while (0)
 
 
diff --git a/sm_logging/src/LoggingGlobals.cpp b/sm_logging/src/LoggingGlobals.cpp
index b174d65..6397dd5 100644
--- a/sm_logging/src/LoggingGlobals.cpp
+++ b/sm_logging/src/LoggingGlobals.cpp
@@ -49,7 +49,7 @@ namespace sm {
         }
 
         void LoggingGlobals::checkLogLocationEnabledNoLock(LogLocation* loc) {
-            loc->_loggerEnabled = loc->_level >= _level && (loc->_streamName.size() == 0 || isNamedStreamEnabled(loc->_streamName));
+            loc->_loggerEnabled = isEnabled(loc->_level, loc->_streamName);
         }
 
         void LoggingGlobals::initializeLogLocation(LogLocation* loc, const std::string& name, Level level){
@@ -113,6 +113,10 @@ namespace sm {
                 
         }
 
+        bool LoggingGlobals::isEnabled( Level level, const std::string & streamName ) {
+            return level >= _level && (streamName.size() == 0 || isNamedStreamEnabled(streamName));
+        }
+
         void LoggingGlobals::enableNamedStream( const std::string & name ) {
             {
                 boost::recursive_mutex::scoped_lock lock(_named_stream_mutex);
-- 
2.43.0


From 8d6f9903639670067c1be20edb7b9838c3b6afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 055/101] fix: a job queue must survive being joined by several
 threads at once

---
 sm_boost/include/sm/boost/JobQueue.hpp | 1 +
 sm_boost/src/JobQueue.cpp              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/sm_boost/include/sm/boost/JobQueue.hpp b/sm_boost/include/sm/boost/JobQueue.hpp
index 3cef8b1..02b9338 100644
--- a/sm_boost/include/sm/boost/JobQueue.hpp
+++ b/sm_boost/include/sm/boost/JobQueue.hpp
@@ -66,6 +66,7 @@ namespace sm {
         int activeThreads_;
         std::deque<boost::function<void ()> > q_;
         boost::mutex mutex_;
+        boost::mutex joinMutex_;
         boost::condition condition_; // signal we wait for when queue is empty
         boost::condition workCondition_; // signal we wait for when waiting for the queue to complete
         boost::shared_ptr<boost::thread_group> work_;
diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 542a31b..538702d 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -38,6 +38,8 @@ namespace sm {
     void JobQueue::join()
     {
         stop();
+        // boost::thread must not be joined by several threads at once
+        boost::mutex::scoped_lock lck(joinMutex_);
         if(work_)
             work_->join_all();
     }
-- 
2.43.0


From 3e937ceae72bd787f9192d3cfa2da0258626b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 056/101] fix: axisAngle2R must not take a negative angle for
 zero

---
 sm_kinematics/src/rotations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 26ee3f6..233073e 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -98,7 +98,7 @@ namespace sm { namespace kinematics {
 	
     SM_ASSERT_LT_DBG(std::runtime_error,fabs(sqrt(ax*ax + ay*ay + az*az) - 1.0), 1e-4, "The axis is not a unit vector. ||a|| = " << (sqrt(ax*ax + ay*ay + az*az)));
 		
-    if(a < 1e-12)
+    if(fabs(a) < 1e-12)
       return Eigen::Matrix3d::Identity();
     // e = [ax ay az]
     // e*(e') + (eye(3) - e*(e'))*cos(a) - crossMx(e) * sin(a) = 
-- 
2.43.0


From f2a6621882482770ea81e58fa437427a06e29e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 057/101] fix: Euler angles of a rotation at or near gimbal
 lock

---
 sm_kinematics/src/EulerAnglesYawPitchRoll.cpp | 11 +-------
 sm_kinematics/src/EulerAnglesZXY.cpp          | 11 +++++---
 sm_kinematics/src/EulerAnglesZYX.cpp          | 11 +-------
 sm_kinematics/src/rotations.cpp               | 27 +++++++------------
 4 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
index 15ef6b5..356c6b9 100755
--- a/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
+++ b/sm_kinematics/src/EulerAnglesYawPitchRoll.cpp
@@ -36,16 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesYawPitchRoll::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(-rotationMatrix(2,0));
-      double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
-      double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
-    
-      Eigen::Vector3d ret;
-      ret[2] = theta;
-      ret[1] = phi;
-      ret[0] = psi;
-      
-      return ret;
+      return R2rph(rotationMatrix).reverse();
     }
     
     Eigen::Matrix3d EulerAnglesYawPitchRoll::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/sm_kinematics/src/EulerAnglesZXY.cpp b/sm_kinematics/src/EulerAnglesZXY.cpp
index 577c3b6..34bb0ca 100644
--- a/sm_kinematics/src/EulerAnglesZXY.cpp
+++ b/sm_kinematics/src/EulerAnglesZXY.cpp
@@ -66,10 +66,15 @@ namespace sm {
 
     Eigen::Vector3d EulerAnglesZXY::rotationMatrixToParameters(
         const Eigen::Matrix3d& rotationMatrix) const {
-      const double sx = rotationMatrix(2, 1);
-      const double r_x = asin(sx);
+      // No arc sine: the element (2, 1) may be rounded to beyond +-1. Taking r_z relative to r_y gives
+      // a valid solution when r_x is +-90 degrees (only their sum or difference is determined then).
+      const double r_x = atan2(rotationMatrix(2, 1),
+        hypot(rotationMatrix(2, 0), rotationMatrix(2, 2)));
       const double r_y = atan2(-rotationMatrix(2, 0), rotationMatrix(2, 2));
-      const double r_z = atan2(-rotationMatrix(0, 1), rotationMatrix(1, 1));
+      const double cy = cos(r_y);
+      const double sy = sin(r_y);
+      const double r_z = atan2(cy * rotationMatrix(1, 0) + sy * rotationMatrix(1, 2),
+        cy * rotationMatrix(0, 0) + sy * rotationMatrix(0, 2));
       return Eigen::Vector3d(r_z, r_x, r_y);
     }
 
diff --git a/sm_kinematics/src/EulerAnglesZYX.cpp b/sm_kinematics/src/EulerAnglesZYX.cpp
index b56c9ec..3e8a7b7 100755
--- a/sm_kinematics/src/EulerAnglesZYX.cpp
+++ b/sm_kinematics/src/EulerAnglesZYX.cpp
@@ -36,16 +36,7 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerAnglesZYX::rotationMatrixToParameters(const Eigen::Matrix3d & rotationMatrix) const
     {
-      double phi = asin(rotationMatrix(2,0));
-      double theta = atan2(rotationMatrix(2,1),rotationMatrix(2,2));
-      double psi = atan2(rotationMatrix(1,0), rotationMatrix(0,0));
-    
-      Eigen::Vector3d ret;
-      ret[2] = -theta;
-      ret[1] = phi;
-      ret[0] = -psi;
-      
-      return ret;
+      return C2rph(rotationMatrix).reverse();
     }
     
     Eigen::Matrix3d EulerAnglesZYX::parametersToSMatrix(const Eigen::Vector3d & parameters) const
diff --git a/sm_kinematics/src/rotations.cpp b/sm_kinematics/src/rotations.cpp
index 233073e..d9dd4b9 100644
--- a/sm_kinematics/src/rotations.cpp
+++ b/sm_kinematics/src/rotations.cpp
@@ -62,13 +62,17 @@ namespace sm { namespace kinematics {
   }
 
   Eigen::Vector3d R2rph(Eigen::Matrix3d const & C){
-    double phi = asin(C(2,0));
+    // No arc sine: C(2,0) may be rounded to beyond +-1. Taking the last angle relative to the first
+    // gives a valid solution when the middle angle is +-90 degrees (only their sum is determined then).
     double theta = atan2(C(2,1),C(2,2));
-    double psi = atan2(C(1,0), C(0,0));
+    double phi = atan2(-C(2,0), hypot(C(2,1),C(2,2)));
+    double cx = cos(theta);
+    double sx = sin(theta);
+    double psi = atan2(sx*C(0,2) - cx*C(0,1), cx*C(1,1) - sx*C(1,2));
     
     Eigen::Vector3d ret;
     ret[0] = theta;
-    ret[1] = -phi;
+    ret[1] = phi;
     ret[2] = psi;
 
     return ret;
@@ -192,24 +196,13 @@ namespace sm { namespace kinematics {
      SM_ASSERT_EQ_DBG(std::runtime_error,C.rows(),3,"The input matrix must be 3x3");
      SM_ASSERT_EQ_DBG(std::runtime_error,C.cols(),3,"The input matrix must be 3x3");
 
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     return C2rph(Eigen::Matrix3d(C));
    }
 
    Eigen::Vector3d C2rph(Eigen::Matrix3d const & C)
    {
-     Eigen::Vector3d rph;
-
-     rph[1] = asin(C(2,0));
-     rph[2] = atan2(-C(1,0),C(0,0));
-     rph[0] = atan2(-C(2,1),C(2,2));
-
-     return rph;
+     // rph2C(x,y,z) is rph2R(-x,-y,-z)
+     return -R2rph(C);
    }
 
 
-- 
2.43.0


From d201dacf8e66da73e9bc59954523fda8a83b4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 058/101] fix: rotation vector of half turns and of small
 rotations

---
 sm_kinematics/src/RotationVector.cpp | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index c48e9e9..1ce8ff8 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -56,27 +56,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Vector3d RotationVector::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
         {
-            Eigen::Vector3d p;
-            // Sometimes, because of roundoff error, the value of tr ends up outside
-            // the valid range of arccos. Truncate to the valid range.
-            double tr = std::max(-1.0, std::min( (C(0,0) + C(1,1) + C(2,2) - 1.0) * 0.5, 1.0));
-            double a = acos( tr ) ;
-
-            if(fabs(a) < 1e-14){
-                return Eigen::Vector3d::Zero();
-            }
-      
-            p[0] = (C(2,1) - C(1,2));
-            p[1] = (C(0,2) - C(2,0));
-            p[2] = (C(1,0) - C(0,1));
-            double n2 = p.norm();
-            if(fabs(n2) < 1e-14)
-                return Eigen::Vector3d::Zero();
-      
-            double scale = -a/n2;
-            p = scale * p;
-
-            return p;
+            return R2AxisAngle(C);
         }
 
         Eigen::Matrix3d RotationVector::parametersToSMatrix(const Eigen::Vector3d & parameters) const
-- 
2.43.0


From ed54d247243d4dc05756cdef0e58edda5f11e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 059/101] fix: Euler-Rodriguez parameters of half turns and of
 rounded identities

---
 sm_kinematics/src/EulerRodriguez.cpp | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/sm_kinematics/src/EulerRodriguez.cpp b/sm_kinematics/src/EulerRodriguez.cpp
index ad19ee1..db55caa 100755
--- a/sm_kinematics/src/EulerRodriguez.cpp
+++ b/sm_kinematics/src/EulerRodriguez.cpp
@@ -1,4 +1,6 @@
 #include <sm/kinematics/EulerRodriguez.hpp>
+#include <algorithm>
+#include <sm/kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -26,28 +28,9 @@ namespace sm { namespace kinematics {
 
     Eigen::Vector3d EulerRodriguez::rotationMatrixToParameters(const Eigen::Matrix3d & C) const
     {
-      Eigen::Vector3d p;
-      double a = acos( (C(0,0) + C(1,1) + C(2,2) - double(1)) * double(0.5));
-
-      if(fabs(a) < 1e-14){
-	return Eigen::Vector3d::Zero();
-      }
-      
-      p[0] = (C(2,1) - C(1,2));
-      p[1] = (C(0,2) - C(2,0));
-      p[2] = (C(1,0) - C(0,1));
-      
-      double n2 = p.norm();
-      if(n2 < 1e-14)
-	{
-	  return Eigen::Vector3d::Zero();
-	}
-            
-      double scale = -tan(0.5*a)/n2;
-      p = scale * p;
-
-
-      return p;
+      const Eigen::Vector4d q = r2quat(C);
+      // A half turn has infinite parameters: return large ones that give the same rotation matrix.
+      return q.head<3>() / std::max(q[3], 1e-16);
     }
 
     Eigen::Matrix3d EulerRodriguez::parametersToSMatrix(const Eigen::Vector3d & parameters) const
-- 
2.43.0


From dd939945bdeaf3f7e7b3730d9cf936735ae7d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 060/101] fix: logarithm of quaternions at and next to minus
 identity

---
 sm_kinematics/src/quaternion_algebra.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index 8985046..b964c94 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -267,7 +267,13 @@ namespace sm { namespace kinematics {
             }else{
               // (pi - asin(na))/ na has a pole at na == 0. So we cannot remove this singularity.
               // It is just the cut locus of the unit quaternion manifold at identity and thus the axis angle description becomes necessarily unstable there.
-              scale = (M_PI - asin(na)) / na;
+              const Scalar_ largest = a.cwiseAbs().maxCoeff();
+              if(largest == Scalar_(0)){
+                // A full turn about any axis gives q.
+                return Eigen::Matrix<Scalar_, 3, 1>(Scalar_(2 * M_PI), 0, 0);
+              }
+              // normalized in two steps because na underflows when the components are tiny
+              return (a / largest).normalized() * (Scalar_(2) * (Scalar_(M_PI) - asin(na)));
             }
           }
           return a * (Scalar_(2) * scale);
-- 
2.43.0


From 6ee292a9b5564c3d200bc23eec977cf03fe60e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 061/101] fix: series of the quaternion exponential and
 logarithm for small angles

---
 sm_kinematics/src/quaternion_algebra.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_kinematics/src/quaternion_algebra.cpp b/sm_kinematics/src/quaternion_algebra.cpp
index b964c94..2fee51e 100755
--- a/sm_kinematics/src/quaternion_algebra.cpp
+++ b/sm_kinematics/src/quaternion_algebra.cpp
@@ -209,7 +209,7 @@ namespace sm { namespace kinematics {
             if(isLessThenEpsilons4thRoot(theta))
             {
                 static const double one_over_48 = 1.0/48.0;
-                na = 0.5 + (theta * theta) * one_over_48;
+                na = 0.5 - (theta * theta) * one_over_48;
             }
             else
             {
@@ -228,7 +228,7 @@ namespace sm { namespace kinematics {
         template <typename Scalar_>
         inline Scalar_ arcSinXOverX(Scalar_ x) {
           if(isLessThenEpsilons4thRoot(fabs(x))){
-            return Scalar_(1.0) + x * x * Scalar_(1/6);
+            return Scalar_(1.0) + x * x * Scalar_(1.0/6.0);
           }
           return asin(x) / x;
         }
-- 
2.43.0


From a7cb03119d94846f9024b1c2c590358037f5dc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 062/101] fix: RotationVector::parametersToInverseSMatrix for
 small angles

---
 sm_kinematics/src/RotationVector.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index 1ce8ff8..bbddb19 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/RotationVector.hpp>
+#include <sm/kinematics/quaternion_algebra.hpp>
 
 namespace sm { namespace kinematics {
 
@@ -165,19 +166,7 @@ namespace sm { namespace kinematics {
 
         Eigen::Matrix3d RotationVector::parametersToInverseSMatrix(const Eigen::Vector3d & parameters) const
         {
-            double phi = std::sqrt(parameters.transpose()*parameters);
-            Eigen::Matrix3d invS;
-            if(phi == 0)
-            {
-                invS = Eigen::Matrix3d::Identity();
-            }
-            else
-            {
-                double cot = - std::sin(phi)/(std::cos(phi)-1);
-                double a1 = 1/(phi*phi) * (1- 0.5*phi*cot);
-                invS = Eigen::Matrix3d::Identity() + 0.5*crossMx(parameters) + a1*crossMx(parameters)*crossMx(parameters);
-            }
-            return invS;
+            return logDiffMat(parameters);
         }
 
 
-- 
2.43.0


From 29eb547e5bad57406f33f7de74d5ec8bee1b0451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 063/101] fix: RotationVector::angularVelocityAndJacobian for
 small rotation vectors

---
 sm_kinematics/src/RotationVector.cpp | 83 +++++++++-------------------
 1 file changed, 27 insertions(+), 56 deletions(-)

diff --git a/sm_kinematics/src/RotationVector.cpp b/sm_kinematics/src/RotationVector.cpp
index bbddb19..888deb5 100755
--- a/sm_kinematics/src/RotationVector.cpp
+++ b/sm_kinematics/src/RotationVector.cpp
@@ -1,5 +1,6 @@
 #include <sm/kinematics/RotationVector.hpp>
 #include <sm/kinematics/quaternion_algebra.hpp>
+#include <Eigen/Geometry>
 
 namespace sm { namespace kinematics {
 
@@ -99,64 +100,34 @@ namespace sm { namespace kinematics {
             {
                 *Jacobian = Eigen::Matrix<double,3,6>::Zero();
 
-                //Jacobian->block(0,0,3,3) = Eigen::Matrix3d::Zero();
                 Jacobian->block(0,3,3,3) = S;
-    
-                // LAZY
-                // \todo...redo when there is time and not so lazy.
-                Eigen::Matrix<double,3,6> & J = *Jacobian;
-                double t1 = p[0];
-                double t2 = p[1];
-                double t3 = p[2];
-                double dt1 = pdot[0];
-                double dt2 = pdot[1];
-                double dt3 = pdot[2];
-                double t5 = t1*t1;
-                double t6 = t2*t2;
-                double t7 = t3*t3;
-                double t8 = t5+t6+t7;
-                double t9 = pow(t8,3.0/2.0);
-                double t10 = sqrt(t8);
-                double t11 = sin(t10);
-                double t12 = cos(t10);
-                double t13 = t12*(1.0/2.0);
-                double t14 = t13-1.0/2.0;
-                double t15 = 1.0/pow(t8,5.0/2.0);
-                double t16 = dt3*t14*t9*2.0;
-                double t17 = dt3*t1*t11*t2*t3*3.0;
-                double t18 = dt3*t3*t9;
-                double t19 = dt1*t1*t10*t6*2.0;
-                double t20 = dt2*t11*t2*t5*3.0;
-                double t21 = dt1*t1*t10*t12*t6;
-                double t22 = dt2*t14*t9*2.0;
-                double t23 = dt2*t1*t10*t2*t3*2.0;
-                double t24 = dt2*t1*t10*t12*t2*t3;
-                double t25 = dt1*t14*t9*2.0;
-                double t26 = dt1*t1*t11*t2*t3*3.0;
-                double t27 = dt1*t1*t9;
-                double t28 = dt2*t2*t9;
-                double t29 = dt1*t1*t10*t7*2.0;
-                double t30 = dt2*t10*t2*t7*2.0;
-                double t31 = dt3*t11*t3*t5*3.0;
-                double t32 = dt3*t11*t3*t6*3.0;
-                double t33 = dt2*t1*t11*t3*t8;
-                double t34 = dt2*t1*t10*t14*t3*4.0;
-                double t35 = dt1*t1*t10*t12*t7;
-                double t36 = dt2*t10*t12*t2*t7;
-                double t0  = t15*(t18+t19+t20+t21+t28+t29+t31+t33+t34+t35-dt1*t1*t11*t6*3.0-dt2*t10*t2*t5*2.0-dt1*t1*t11*t7*3.0-dt3*t10*t3*t5*2.0-dt2*t11*t2*t8-dt3*t11*t3*t8-dt3*t1*t10*t14*t2*4.0-dt2*t10*t12*t2*t5-dt3*t10*t12*t3*t5-dt3*t1*t11*t2*t8);
-
-
-                J(0,0) = t0;
-                J(0,1) = t15*(t16+t17+dt2*t1*t9-dt1*t2*t9*2.0-dt2*t1*t10*t6*2.0+dt2*t1*t11*t6*3.0-dt3*t10*t14*t6*4.0+dt1*t10*t2*t6*2.0-dt1*t11*t2*t6*3.0+dt1*t10*t2*t7*2.0-dt1*t11*t2*t7*3.0-dt2*t1*t11*t8+dt1*t11*t2*t8*2.0-dt3*t11*t6*t8-dt3*t1*t10*t2*t3*2.0+dt2*t10*t14*t2*t3*4.0-dt2*t1*t10*t12*t6+dt1*t10*t12*t2*t6+dt1*t10*t12*t2*t7+dt2*t11*t2*t3*t8-dt3*t1*t10*t12*t2*t3);
-                J(0,2) = -t15*(t22+t23+t24-dt3*t1*t9+dt1*t3*t9*2.0+dt3*t1*t10*t7*2.0-dt3*t1*t11*t7*3.0-dt2*t10*t14*t7*4.0-dt1*t10*t3*t6*2.0+dt1*t11*t3*t6*3.0+dt3*t1*t11*t8-dt1*t10*t3*t7*2.0+dt1*t11*t3*t7*3.0-dt1*t11*t3*t8*2.0-dt2*t11*t7*t8-dt2*t1*t11*t2*t3*3.0+dt3*t10*t14*t2*t3*4.0+dt3*t1*t10*t12*t7-dt1*t10*t12*t3*t6-dt1*t10*t12*t3*t7+dt3*t11*t2*t3*t8);
-                J(1,0) = -t15*(t16-t17+dt2*t1*t9*2.0-dt1*t2*t9-dt2*t1*t10*t5*2.0+dt2*t1*t11*t5*3.0-dt3*t10*t14*t5*4.0+dt1*t10*t2*t5*2.0-dt1*t11*t2*t5*3.0-dt2*t1*t10*t7*2.0+dt2*t1*t11*t7*3.0-dt2*t1*t11*t8*2.0+dt1*t11*t2*t8-dt3*t11*t5*t8+dt1*t1*t10*t14*t3*4.0+dt3*t1*t10*t2*t3*2.0-dt2*t1*t10*t12*t5+dt1*t10*t12*t2*t5-dt2*t1*t10*t12*t7+dt1*t1*t11*t3*t8+dt3*t1*t10*t12*t2*t3);
-                J(1,1) = t15*(t18-t19-t20-t21+t27+t30+t32+t36+dt1*t1*t11*t6*3.0+dt2*t10*t2*t5*2.0-dt1*t1*t11*t8-dt2*t11*t2*t7*3.0-dt3*t10*t3*t6*2.0-dt3*t11*t3*t8+dt3*t1*t10*t14*t2*4.0-dt1*t10*t14*t2*t3*4.0+dt2*t10*t12*t2*t5-dt3*t10*t12*t3*t6+dt3*t1*t11*t2*t8-dt1*t11*t2*t3*t8);
-                J(1,2) = t15*(t25+t26+dt3*t2*t9-dt2*t3*t9*2.0+dt2*t10*t3*t5*2.0-dt2*t11*t3*t5*3.0-dt1*t10*t14*t7*4.0-dt3*t10*t2*t7*2.0+dt3*t11*t2*t7*3.0+dt2*t10*t3*t7*2.0-dt2*t11*t3*t7*3.0-dt3*t11*t2*t8+dt2*t11*t3*t8*2.0-dt1*t11*t7*t8+dt3*t1*t10*t14*t3*4.0-dt1*t1*t10*t2*t3*2.0+dt2*t10*t12*t3*t5-dt3*t10*t12*t2*t7+dt2*t10*t12*t3*t7+dt3*t1*t11*t3*t8-dt1*t1*t10*t12*t2*t3);
-                J(2,0) = t15*(t22-t23-t24-dt3*t1*t9*2.0+dt1*t3*t9+dt3*t1*t10*t5*2.0-dt3*t1*t11*t5*3.0-dt2*t10*t14*t5*4.0+dt3*t1*t10*t6*2.0-dt3*t1*t11*t6*3.0-dt1*t10*t3*t5*2.0+dt1*t11*t3*t5*3.0+dt3*t1*t11*t8*2.0-dt1*t11*t3*t8-dt2*t11*t5*t8+dt1*t1*t10*t14*t2*4.0+dt2*t1*t11*t2*t3*3.0+dt3*t1*t10*t12*t5+dt3*t1*t10*t12*t6-dt1*t10*t12*t3*t5+dt1*t1*t11*t2*t8);
-                J(2,1) = -t15*(t25-t26+dt3*t2*t9*2.0-dt2*t3*t9-dt3*t10*t2*t5*2.0+dt3*t11*t2*t5*3.0-dt1*t10*t14*t6*4.0-dt3*t10*t2*t6*2.0+dt3*t11*t2*t6*3.0+dt2*t10*t3*t6*2.0-dt2*t11*t3*t6*3.0-dt3*t11*t2*t8*2.0+dt2*t11*t3*t8-dt1*t11*t6*t8+dt2*t1*t10*t14*t2*4.0+dt1*t1*t10*t2*t3*2.0-dt3*t10*t12*t2*t5-dt3*t10*t12*t2*t6+dt2*t10*t12*t3*t6+dt2*t1*t11*t2*t8+dt1*t1*t10*t12*t2*t3);
-                J(2,2) = t15*(t27+t28-t29-t30-t31-t32-t33-t34-t35-t36+dt1*t1*t11*t7*3.0+dt3*t10*t3*t5*2.0-dt1*t1*t11*t8+dt2*t11*t2*t7*3.0+dt3*t10*t3*t6*2.0-dt2*t11*t2*t8+dt1*t10*t14*t2*t3*4.0+dt3*t10*t12*t3*t5+dt3*t10*t12*t3*t6+dt1*t11*t2*t3*t8);
-
 
+                // omega = pdot - a p x pdot + b p x (p x pdot) with a = (1 - cos(phi))/phi^2, b = (phi - sin(phi))/phi^3;
+                // da and db are the derivatives of a and b with respect to phi divided by phi.
+                const double phi2 = p.squaredNorm();
+                const double phi = sqrt(phi2);
+                double a, b, da, db;
+                if(phi < 1e-1)
+                {
+                    // the closed forms cancel for small angles
+                    a = 1.0/2.0 - phi2*(1.0/24.0 - phi2*(1.0/720.0 - phi2*(1.0/40320.0 - phi2/3628800.0)));
+                    b = 1.0/6.0 - phi2*(1.0/120.0 - phi2*(1.0/5040.0 - phi2*(1.0/362880.0 - phi2/39916800.0)));
+                    da = -1.0/12.0 + phi2*(1.0/180.0 - phi2*(1.0/6720.0 - phi2*(1.0/453600.0 - phi2/47900160.0)));
+                    db = -1.0/60.0 + phi2*(1.0/1260.0 - phi2*(1.0/60480.0 - phi2*(1.0/4989600.0 - phi2/622702080.0)));
+                }
+                else
+                {
+                    const double s = sin(phi), c = cos(phi);
+                    a = (1.0 - c)/phi2;
+                    b = (phi - s)/(phi2*phi);
+                    da = (phi*s - 2.0*(1.0 - c))/(phi2*phi2);
+                    db = (3.0*s - phi*c - 2.0*phi)/(phi2*phi2*phi);
+                }
+                const Eigen::Vector3d pxd = p.cross(pdot);
+                Jacobian->block(0,0,3,3) =
+                    a * crossMx(pdot) - (da * pxd) * p.transpose()
+                    + b * (p.dot(pdot) * Eigen::Matrix3d::Identity() + p * pdot.transpose() - 2.0 * pdot * p.transpose())
+                    + (db * p.cross(pxd)) * p.transpose();
             }
 
             return omega;
-- 
2.43.0


From a8c8a404e9994b1be1091ed05c2d1b9328d6722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:11 +0000
Subject: [PATCH 064/101] fix: uncertainty of sums and differences of
 homogeneous points

---
 sm_kinematics/src/HomogeneousPoint.cpp          |  9 +++++++--
 sm_kinematics/src/UncertainHomogeneousPoint.cpp | 10 +++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/sm_kinematics/src/HomogeneousPoint.cpp b/sm_kinematics/src/HomogeneousPoint.cpp
index babf6a3..91e4bb3 100755
--- a/sm_kinematics/src/HomogeneousPoint.cpp
+++ b/sm_kinematics/src/HomogeneousPoint.cpp
@@ -1,4 +1,5 @@
 #include <sm/kinematics/HomogeneousPoint.hpp>
+#include <sm/kinematics/homogeneous_coordinates.hpp>
 #include <sm/kinematics/quaternion_algebra.hpp>
 #include <sm/kinematics/UncertainHomogeneousPoint.hpp>
 #include <sm/serialization_macros.hpp>
@@ -51,7 +52,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] + rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      const Eigen::Matrix4d J = toHomogeneousPlus(_ph);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * rhs.U4() * J.transpose()));
 
     }
       
@@ -65,7 +67,10 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
       rval[3] = _ph[3] * rhs._ph[3];
       
-      return UncertainHomogeneousPoint(rval, rhs.U4());
+      // the result is linear in the subtrahend
+      Eigen::Matrix4d J = toHomogeneousPlus(_ph);
+      J.topLeftCorner<3,3>() = -J.topLeftCorner<3,3>();
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * rhs.U4() * J.transpose()));
     }
 
 
diff --git a/sm_kinematics/src/UncertainHomogeneousPoint.cpp b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
index f839f94..633d21f 100755
--- a/sm_kinematics/src/UncertainHomogeneousPoint.cpp
+++ b/sm_kinematics/src/UncertainHomogeneousPoint.cpp
@@ -161,7 +161,8 @@ namespace sm {
       rval.head<3>() = _ph.head<3>() * pr[3] + pr.head<3>() * _ph[3];
       rval[3] = _ph[3] * pr[3];
       
-      return UncertainHomogeneousPoint(rval, U4());
+      const Eigen::Matrix4d J = toHomogeneousPlus(pr);
+      return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * U4() * J.transpose()));
 
     }
     
@@ -175,7 +176,8 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * pr[3] - pr.head<3>() * _ph[3];
 	rval[3] = _ph[3] * pr[3];
 	
-	return UncertainHomogeneousPoint(rval, U4());
+	const Eigen::Matrix4d J = toHomogeneousMinus(pr);
+	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(J * U4() * J.transpose()));
 
       }
 
@@ -203,8 +205,10 @@ namespace sm {
 	rval.head<3>() = _ph.head<3>() * rhs._ph[3] - rhs._ph.head<3>() * _ph[3];
 	rval[3] = _ph[3] * rhs._ph[3];
 
+	// the derivatives of the result with respect to rhs and to this
 	Eigen::Matrix4d PL = toHomogeneousPlus(_ph);
-	Eigen::Matrix4d PR = toHomogeneousPlus(rhs._ph);
+	PL.topLeftCorner<3,3>() = -PL.topLeftCorner<3,3>();
+	Eigen::Matrix4d PR = toHomogeneousMinus(rhs._ph);
 	
 	return UncertainHomogeneousPoint(rval, (Eigen::Matrix4d)(PR * U4() * PR.transpose() + PL * rhs.U4() * PL.transpose()));	
 	
-- 
2.43.0


From 766e91e9813d5479775ec0c4aa61b36974761a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 065/101] fix: let Python multiply a Transformation by an
 uncertain operand

---
 sm_python/src/exportTransformation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 5fe95ec..4b539cb 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -47,10 +47,10 @@ void exportTransformation()
       // the list in reverse order looking for a match. If the
       // Eigen export is first, the others are disabled.
       //.def(self * Eigen::Vector4d())
-    .def(self * UncertainTransformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
+    .def(self * UncertainTransformation())
     .def(self * HomogeneousPoint())
+    .def(self * UncertainHomogeneousPoint())
       .def(self * Eigen::Vector3d())
       //.def(self * Eigen::Vector4d())
       .def("checkTransformationIsValid", &Transformation::checkTransformationIsValid)
-- 
2.43.0


From c8162826e9e240c43e0ce5d902c71b3931687b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 066/101] fix: keep the uncertainty of the right operand of an
 UncertainTransformation in Python

---
 sm_python/src/exportTransformation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 4b539cb..ef643c2 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -72,10 +72,10 @@ void exportTransformation()
     .def(init<const Eigen::Vector4d &, const Eigen::Vector3d>())
       .def("save", &saveobj<UncertainTransformation>)
       .def("load", &loadobj<UncertainTransformation>)
+    .def(self * Transformation())
     .def(self * self)
-    .def(self * UncertainHomogeneousPoint())
     .def(self * HomogeneousPoint())
-    .def(self * Transformation())
+    .def(self * UncertainHomogeneousPoint())
     //.def(self * Eigen::Vector3d())
     //.def(self * Eigen::Vector4d())
     .def("inverse",&UncertainTransformation::inverse)
-- 
2.43.0


From b96bd457f4037521c4f0febfbe4afd32a2f97cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 067/101] fix: keep the uncertainty of an inverted
 UncertainTransformation in Python

---
 sm_python/src/exportTransformation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index ef643c2..2bdb59f 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -87,7 +87,6 @@ void exportTransformation()
     .def("t", &Transformation::t, return_value_policy<copy_const_reference>())
     .def("q", &Transformation::q, return_value_policy<copy_const_reference>())
     .def("T3x4", &Transformation::T3x4)
-    .def("inverse", &Transformation::inverse)
     .def("setIdentity", &Transformation::setIdentity)
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
-- 
2.43.0


From 480dfa5ded7f4e90bedf71509a7b6f6807ed7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 068/101] fix: keep the uncertainty when an
 UncertainTransformation is pickled

---
 sm_python/src/exportTransformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/src/exportTransformation.cpp b/sm_python/src/exportTransformation.cpp
index 2bdb59f..090669a 100755
--- a/sm_python/src/exportTransformation.cpp
+++ b/sm_python/src/exportTransformation.cpp
@@ -91,7 +91,7 @@ void exportTransformation()
     .def("setRandom", setRandom1)
     .def("setRandom", setRandom2)
     .def("S", &Transformation::S)
-
+    .def_pickle( sm::python::pickle_suite<UncertainTransformation>() )
     ;
 
 }
-- 
2.43.0


From 424eb089f0cd0dfe2d395d36151b815410ddf0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 069/101] fix: let Python get the children of a
 ConstPropertyTree

---
 sm_python/src/exportPropertyTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/src/exportPropertyTree.cpp b/sm_python/src/exportPropertyTree.cpp
index d769dad..4924bd5 100755
--- a/sm_python/src/exportPropertyTree.cpp
+++ b/sm_python/src/exportPropertyTree.cpp
@@ -39,7 +39,7 @@ void exportPropertyTree() {
   using namespace sm;
 
   class_<ConstPropertyTree>("ConstPropertyTree", init<const ConstPropertyTree &, const std::string &>("ConstPropertyTree(ConstPropertyTree parent, string childNamespace)"))
-      .def("getChild", &PropertyTree::getChild)
+      .def("getChild", &ConstPropertyTree::getChild)
       .def("getInt", &getInt).def("getIntDefault", &getIntDefault)
       .def("getString", &getString)
       .def("getStringDefault", &getStringDefault)
-- 
2.43.0


From c8403040e4b1b99d0f13ec74b0b7b4a190083c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 070/101] fix: sm.logVerbose uses a level that does not exist

---
 sm_python/python/sm/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/python/sm/__init__.py b/sm_python/python/sm/__init__.py
index 8841ffa..64efc28 100755
--- a/sm_python/python/sm/__init__.py
+++ b/sm_python/python/sm/__init__.py
@@ -29,7 +29,7 @@ def logFinest(message):
     log(LoggingLevel.Finest, message, stackdepth=2)
     
 def logVerbose(message):
-    log(LoggingLevel.FineVerbose, message, stackdepth=2)
+    log(LoggingLevel.Verbose, message, stackdepth=2)
     
 def logFiner(message):
     log(LoggingLevel.Finer, message, stackdepth=2)
-- 
2.43.0


From 8569ca057a387b78222b5cab43db8dae4ab1377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:00 +0000
Subject: [PATCH 071/101] fix: Progress2 printed a new line ending in None for
 every sample

---
 sm_python/python/sm/Progress.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_python/python/sm/Progress.py b/sm_python/python/sm/Progress.py
index 17887be..fa08883 100644
--- a/sm_python/python/sm/Progress.py
+++ b/sm_python/python/sm/Progress.py
@@ -65,8 +65,8 @@ class Progress2(object):
             if h > 0: t_remaining_str = "%d h " % h
             if m > 0: t_remaining_str = t_remaining_str + "%dm " % m
             if s > 0: t_remaining_str = t_remaining_str + "%ds" % s
-            print("\r  Progress {0} / {1} \t Time remaining: {2}                 ".format(self.iteration, self.numIterations, t_remaining_str),
-            sys.stdout.flush())
+            print("\r  Progress {0} / {1} \t Time remaining: {2}                 ".format(self.iteration, self.numIterations, t_remaining_str), end="")
+            sys.stdout.flush()
         else:
             self.startTime = time.time()
             self.iteration = 0
-- 
2.43.0


From 64347fe50a770601bd57ffce6b38f850627a34fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 072/101] fix: Progress2 must not print a negative remaining
 time

---
 sm_python/python/sm/Progress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_python/python/sm/Progress.py b/sm_python/python/sm/Progress.py
index fa08883..0ddffee 100644
--- a/sm_python/python/sm/Progress.py
+++ b/sm_python/python/sm/Progress.py
@@ -59,7 +59,7 @@ class Progress2(object):
             timePerRun = self.elapsed / self.iteration
             totalTime = self.numIterations * timePerRun
             
-            m, s = divmod(totalTime-self.elapsed, 60)
+            m, s = divmod(max(totalTime-self.elapsed, 0), 60)
             h, m = divmod(m, 60)
             t_remaining_str = ""
             if h > 0: t_remaining_str = "%d h " % h
-- 
2.43.0


From 925a9148beef21173479de57e67f303807d60f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 073/101] fix: a default must not replace a value that is
 already set

---
 .../include/sm/BoostPropertyTreeImplementation.hpp            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
index 04e7bc2..185aad8 100644
--- a/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
+++ b/sm_property_tree/include/sm/BoostPropertyTreeImplementation.hpp
@@ -132,7 +132,9 @@ namespace sm {
       }
     else
       {
-	set(key,defaultValue);
+	// A value that is there but can not be converted must not be lost.
+	if(!_ptree.get_child_optional(boost::property_tree::ptree::path_type(key.substr(1),'/')))
+	  set(key,defaultValue);
 	return defaultValue;
       }
   }
-- 
2.43.0


From a70251ad718527355f7b91a4014c59c863257261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 074/101] fix: an engine that is not started must know that it
 is not

---
 sm_matlab/src/Engine.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index dfbd21f..097ca55 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -15,16 +15,12 @@ namespace sm {
 
 	Engine::Engine(bool startMatlabAtInitialization)
     {
+		_engine = NULL;
 		// make sure the output buffer is NULL terminated
         _outputBuffer[OUTPUT_BUFFER_SIZE] = '\0';
 
 		if (startMatlabAtInitialization)
-		{
-			_engine = engOpen(NULL);
-
-			// tell Matlab where to store the output
-			engOutputBuffer(_engine, _outputBuffer, OUTPUT_BUFFER_SIZE);
-		}
+			initialize();
     }
 
 #ifdef UNIX
-- 
2.43.0


From d6729e6976383a5ded09a70157556acab905fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 075/101] fix: asking for a variable needs an engine

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 097ca55..bf4508f 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -144,6 +144,7 @@ namespace sm {
 
 	  bool Engine::exists(const std::string& name)
 	  {
+		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
 		mxArray* mxArray = engGetVariable(_engine, name.c_str());
-- 
2.43.0


From 1a649e3cb58de60527d16c368e82acea2aa7b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 076/101] fix: destroying an engine must not throw

---
 sm_matlab/src/Engine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index bf4508f..dec6972 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -36,8 +36,8 @@ namespace sm {
     {
 		if (_engine!=NULL)
 		{
-			int success = engClose(_engine);
-			SM_ASSERT_EQ_DBG(EngineCloseException, success, 0, "Closing Matlab was not possible. Maybe already closed.");
+			// A destructor must not throw: if closing fails (Matlab may already be closed), there is nothing left to do.
+			engClose(_engine);
 		}
     }
 
-- 
2.43.0


From c4f2202b52e03b50e3c63bae818c960b4bc2bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 077/101] fix: an engine can not be copied

---
 sm_matlab/include/sm/matlab/Engine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sm_matlab/include/sm/matlab/Engine.hpp b/sm_matlab/include/sm/matlab/Engine.hpp
index cef7ec3..430d45e 100644
--- a/sm_matlab/include/sm/matlab/Engine.hpp
+++ b/sm_matlab/include/sm/matlab/Engine.hpp
@@ -172,6 +172,10 @@ namespace sm {
 	 
    
     private:
+      // The engine is closed by its only owner.
+      Engine(const Engine&);
+      Engine& operator=(const Engine&);
+
       void assertValidVariableName(const std::string& name) const;
 	  void assertIsInitialized() const;
 
-- 
2.43.0


From e6f78585d609ffbe331de0b928ce1a6ae0c15717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 078/101] fix: release every array

---
 sm_matlab/include/sm/matlab/Engine.hpp | 22 +++++++++++----
 sm_matlab/src/Engine.cpp               | 38 ++++++++------------------
 2 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/sm_matlab/include/sm/matlab/Engine.hpp b/sm_matlab/include/sm/matlab/Engine.hpp
index 430d45e..14f2f9a 100644
--- a/sm_matlab/include/sm/matlab/Engine.hpp
+++ b/sm_matlab/include/sm/matlab/Engine.hpp
@@ -43,6 +43,20 @@ namespace sm {
     ///
     class Engine
     {
+    private:
+      /// The owner of an array
+      class ArrayPtr
+      {
+      public:
+        explicit ArrayPtr(mxArray* array) : _array(array) { }
+        ~ArrayPtr() { if (_array != NULL) mxDestroyArray(_array); }
+        operator mxArray*() const { return _array; }
+      private:
+        ArrayPtr(const ArrayPtr&);
+        ArrayPtr& operator=(const ArrayPtr&);
+        mxArray* _array;
+      };
+
     public:
       /// 
       /// Default constructor.
@@ -197,7 +211,7 @@ namespace sm {
 		// convert to double
 		Eigen::MatrixXd matrix = matrixBase.template cast<double>();
     
-        mxArray* mxArray = mxCreateDoubleMatrix(matrix.rows(), matrix.cols(), mxREAL);
+        ArrayPtr mxArray(mxCreateDoubleMatrix(matrix.rows(), matrix.cols(), mxREAL));
         
         SM_ASSERT_EQ(InvalidSizeException, mxGetElementSize(mxArray), sizeof(double), "Data types do not match");
         
@@ -211,8 +225,6 @@ namespace sm {
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 	template <typename Scalar>
@@ -222,13 +234,11 @@ namespace sm {
         assertValidVariableName(name);
     
         // Matlab stores all variables as doubles so we can just type cast here
-        mxArray* mxArray = mxCreateDoubleScalar(static_cast<double>(value));
+        ArrayPtr mxArray(mxCreateDoubleScalar(static_cast<double>(value)));
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 
diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index dec6972..a709765 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -147,7 +147,7 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 		// Check if variable exists
 		return (mxArray!=NULL);
 	  }
@@ -157,7 +157,7 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -169,7 +169,7 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -181,7 +181,7 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 		// Check if variable exists
 		SM_ASSERT_NE(NoSuchVariableException, mxArray, NULL, "Variable does not exist");
 		
@@ -193,7 +193,7 @@ namespace sm {
 		assertIsInitialized();
 		assertValidVariableName(name);
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 		// Check if variable exists
 		if(!mxArray)
 			return false;
@@ -214,13 +214,11 @@ namespace sm {
         assertValidVariableName(name);
     
         // Matlab stores all variables as doubles so we can just type cast here
-        mxArray* mxArray = mxCreateString(value.c_str());
+        ArrayPtr mxArray(mxCreateString(value.c_str()));
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
     
 	
@@ -230,13 +228,11 @@ namespace sm {
         assertValidVariableName(name);
     
         // Matlab stores all variables as doubles so we can just type cast here
-        mxArray* mxArray = mxCreateLogicalScalar(value);
+        ArrayPtr mxArray(mxCreateLogicalScalar(value));
               
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
         SM_ASSERT_EQ(EnginePutException, success, 0, "Failed to send matrix to Matlab");
-        
-        mxDestroyArray(mxArray);
     }
 	
 
@@ -249,7 +245,7 @@ namespace sm {
         assertValidVariableName(name);
     
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 
 		// Check if variable exists
 		if (!mxArray)
@@ -262,9 +258,6 @@ namespace sm {
 		
 		// read data
 		rValue = mxGetScalar(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
 
 		return true;
     }
@@ -275,7 +268,7 @@ namespace sm {
         assertValidVariableName(name);
     
         // Get variable from matlab
-		mxArray* mxArray = engGetVariable(_engine, name.c_str());
+		ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 
 		// Check if variable exists
 		if (!mxArray)
@@ -291,9 +284,6 @@ namespace sm {
 		char* buffer = new char[lenght];
 		mxGetString(mxArray, buffer, lenght);
 		rValue = buffer;
-          
-		// delete array
-        mxDestroyArray(mxArray);
 
 		return true;
     }
@@ -304,7 +294,7 @@ namespace sm {
         assertValidVariableName(name);
     
         // Get variable from matlab
-        mxArray* mxArray = engGetVariable(_engine, name.c_str());
+        ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 
 		// Check if variable exists
 		if (!mxArray)
@@ -317,9 +307,6 @@ namespace sm {
 		
 		// read data
 		rValue = mxIsLogicalScalarTrue(mxArray);
-          
-		// delete array
-        mxDestroyArray(mxArray);
 
 		return true;
     }
@@ -330,7 +317,7 @@ namespace sm {
 		assertValidVariableName(name);
 
 		// Get variable from matlab
-        mxArray* mxArray = engGetVariable(_engine, name.c_str());
+        ArrayPtr mxArray(engGetVariable(_engine, name.c_str()));
 
 		// Check if variable exists
 		if (!mxArray)
@@ -350,9 +337,6 @@ namespace sm {
 		SM_ASSERT_EQ(InvalidTypeException, sizeof(rValue(0,0)), mxGetElementSize(mxArray), "Datatype does not match");
 		std::memcpy(rValue.data(), mxArrayData, mxGetElementSize(mxArray)*mxGetNumberOfElements(mxArray));
 
-		// delete array
-        mxDestroyArray(mxArray);
-
 		return true;
 	}
 	
-- 
2.43.0


From a733669956dcfa7fcef9bc2dc2582188c246a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 079/101] fix: a variable must have a name

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index a709765..aeae63a 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -343,6 +343,7 @@ namespace sm {
 	void Engine::assertValidVariableName(const std::string& name) const
 	{
 		// Maybe better use regular expressions here?
+        SM_ASSERT_FALSE(InvalidVariableNameException, name.empty(), "A variable must have a name");
         SM_ASSERT_EQ(InvalidVariableNameException, name.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ01234567890_"), std::string::npos, "Illegal character in Variable name");
         SM_ASSERT_FALSE(InvalidVariableNameException, std::isdigit(name[0]), "First character of variable name must not be a number");
 	}
-- 
2.43.0


From 5069bf6268371a80bd960e766079ab510235b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 080/101] fix: an empty matrix has nothing to copy

---
 sm_matlab/include/sm/matlab/Engine.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm_matlab/include/sm/matlab/Engine.hpp b/sm_matlab/include/sm/matlab/Engine.hpp
index 14f2f9a..01d0abc 100644
--- a/sm_matlab/include/sm/matlab/Engine.hpp
+++ b/sm_matlab/include/sm/matlab/Engine.hpp
@@ -220,7 +220,8 @@ namespace sm {
     
         // get pointer to mxArray and copy over data
         double* mxArrayData = mxGetPr(mxArray);
-        memcpy(mxArrayData, matrixD.data(), matrixD.size()*sizeof(double));
+        if (matrixD.size() > 0)
+          memcpy(mxArrayData, matrixD.data(), matrixD.size()*sizeof(double));
         
         // send data and verify
         int success = engPutVariable(_engine, name.c_str(), mxArray);
-- 
2.43.0


From 274bb2262eeba310769c9dc78dfd02f53494a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 081/101] fix: do not read the elements of other arrays as
 doubles

---
 sm_matlab/src/Engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index aeae63a..767591b 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -324,6 +324,7 @@ namespace sm {
 			return false;
 
 		SM_ASSERT_EQ(InvalidTypeException, mxIsNumeric(mxArray), 1, "Variable is not numeric");
+		SM_ASSERT_TRUE(InvalidTypeException, mxIsDouble(mxArray) && !mxIsSparse(mxArray) && !mxIsComplex(mxArray), "Variable is not a full matrix of real doubles");
 		SM_ASSERT_EQ(EmptyVariableException, mxIsEmpty(mxArray), 0, "Variable is empty!");
 		SM_ASSERT_EQ(InvalidSizeException, mxGetNumberOfDimensions(mxArray), 2, "Variable is 2-dimensional");
 
-- 
2.43.0


From a1cce19306a899a60eb37522f0ea963cc2c55e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 082/101] fix: only a line break is removed from the output

---
 sm_matlab/src/Engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 767591b..45047c4 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -97,7 +97,7 @@ namespace sm {
         // return the result
         std::string output(_outputBuffer);
 		// remove line break
-		if(output.size()>0)
+		if(output.size()>0 && output[output.size() - 1] == '\n')
 			output.resize(output.size() - 1);
 		
 		return output;
-- 
2.43.0


From 2433b62395ee9eb95c8a1d48aafcedb5f55e251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 083/101] fix: quote the name of a directory

---
 sm_matlab/src/Engine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 45047c4..26cbcf0 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -105,7 +105,11 @@ namespace sm {
     
     std::string Engine::changeWorkingDirectory(const std::string& directory)
     {
-        return executeCommand("cd ('" + directory + "');");
+        // a quote within a string is doubled
+        std::string quoted;
+        for (size_t i = 0; i < directory.size(); ++i)
+            quoted.append(directory[i] == '\'' ? 2 : 1, directory[i]);
+        return executeCommand("cd ('" + quoted + "');");
     };
     
     void Engine::openCommandLine()
-- 
2.43.0


From bce3d17903cf650fcea3cda9d12e18f979ea9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 084/101] fix: read whole lines on the command line

---
 sm_matlab/src/Engine.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index 26cbcf0..d9e3d71 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -124,14 +124,19 @@ namespace sm {
             // Prepare input line
             std::cout<<">> ";
             
-            // Read from console
-            if (!fgets(_inputBuffer, INPUT_BUFFER_SIZE, stdin))
+            // Read a line from console, which may be longer than the buffer
+            std::string command;
+            while (fgets(_inputBuffer, INPUT_BUFFER_SIZE, stdin))
+            {
+                command += _inputBuffer;
+                if (!command.empty() && command[command.size() - 1] == '\n')
+                    break;
+            }
+            if (command.empty())
                 break;
-            
-            // Convert to string
-            std::string command(_inputBuffer);
 			// remove line break
-			command.resize(command.size() - 1);
+			if (command[command.size() - 1] == '\n')
+				command.resize(command.size() - 1);
 			
             // Check if user wants to exit
             // this intentionally blocks the MATLAB commands "exit" and "quit"
-- 
2.43.0


From 8e1bea454604fc888fa0117d9dcf1c4c954efc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 085/101] fix: the step of a matrix is not the size of its rows

---
 sm_opencv/include/sm/opencv/serialization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 9134e96..74b2574 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -123,7 +123,7 @@ namespace boost
       ar & make_nvp("rows",mat_.rows);
       ar & make_nvp("cols",mat_.cols);
       ar & make_nvp("type",type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.step*mat_.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
     }
  
     template<class Archive>
@@ -134,7 +134,7 @@ namespace boost
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
       mat.create(rows, cols, type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.step*mat.rows));
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.total()*mat.elemSize()));
     }
  
   }} // namespace boost::serialization.
-- 
2.43.0


From f15022c64992bfbe728dea394bf1f397022d4473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:47 +0000
Subject: [PATCH 086/101] fix: do not load over what surrounds a region

---
 sm_opencv/include/sm/opencv/serialization.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sm_opencv/include/sm/opencv/serialization.hpp b/sm_opencv/include/sm/opencv/serialization.hpp
index 74b2574..f4f140a 100755
--- a/sm_opencv/include/sm/opencv/serialization.hpp
+++ b/sm_opencv/include/sm/opencv/serialization.hpp
@@ -134,7 +134,17 @@ namespace boost
       ar & make_nvp("cols",cols);
       ar & make_nvp("type",type);
       mat.create(rows, cols, type);
-      ar & make_nvp("data",boost::serialization::make_binary_object(mat.data, mat.total()*mat.elemSize()));
+      // a region of a larger matrix, which create keeps, is not in one piece
+      cv::Mat mat_;
+      if (mat.isContinuous()) {
+		mat_ = mat;
+      } else {
+		mat_.create(rows, cols, type);
+      }
+      ar & make_nvp("data",boost::serialization::make_binary_object(mat_.data, mat_.total()*mat_.elemSize()));
+      if (mat_.data != mat.data) {
+		mat_.copyTo(mat);
+      }
     }
  
   }} // namespace boost::serialization.
-- 
2.43.0


From e5a27091967330f5254b55e97d45cb9cdc06ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 087/101] fix: JobQueue releases a job's captured state before
 taking its lock again

A job whose captured state used the queue while it was destroyed deadlocked.
---
 sm_boost/src/JobQueue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_boost/src/JobQueue.cpp b/sm_boost/src/JobQueue.cpp
index 538702d..fbd0ef0 100644
--- a/sm_boost/src/JobQueue.cpp
+++ b/sm_boost/src/JobQueue.cpp
@@ -77,6 +77,9 @@ namespace sm {
             lck.unlock(); 
             // call the work function
             f(); 
+            // release what it captured before taking the lock again: that may
+            // call back into the queue
+            f = boost::function<void ()>();
             lck.lock();
             --activeThreads_;
             workCondition_.notify_all();
-- 
2.43.0


From 59651dfae733e80211ac589e8dffe079cd4e3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:39 +0000
Subject: [PATCH 088/101] fix: a copied Formatter looks up its own extra tokens

The copied tokens kept a reference to the map of the formatter they came from,
also after that one was gone.
---
 sm_logging/include/sm/logging/Formatter.hpp |  5 ++++
 sm_logging/src/Formatter.cpp                | 28 +++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/sm_logging/include/sm/logging/Formatter.hpp b/sm_logging/include/sm/logging/Formatter.hpp
index c6b82eb..6d98ef2 100644
--- a/sm_logging/include/sm/logging/Formatter.hpp
+++ b/sm_logging/include/sm/logging/Formatter.hpp
@@ -12,6 +12,8 @@ namespace sm {
         {
 
             Formatter();
+            Formatter(const Formatter & other);
+            Formatter & operator=(const Formatter & other);
             virtual ~Formatter();
 
 
@@ -25,6 +27,9 @@ namespace sm {
             typedef std::map<std::string, std::string> M_string;
             M_string extra_fixed_tokens_;
 
+        private:
+            // Lets the tokens that were copied from another formatter look into this one's map.
+            void adoptTokens();
 
         };
        
diff --git a/sm_logging/src/Formatter.cpp b/sm_logging/src/Formatter.cpp
index d90ec13..c14ee7a 100644
--- a/sm_logging/src/Formatter.cpp
+++ b/sm_logging/src/Formatter.cpp
@@ -12,6 +12,34 @@ namespace sm {
         
         Formatter::~Formatter(){}
 
+        Formatter::Formatter(const Formatter & other)
+            : format_(other.format_), tokens_(other.tokens_), doColor_(other.doColor_), extra_fixed_tokens_(other.extra_fixed_tokens_)
+        {
+            adoptTokens();
+        }
+
+        Formatter & Formatter::operator=(const Formatter & other)
+        {
+            format_ = other.format_;
+            tokens_ = other.tokens_;
+            doColor_ = other.doColor_;
+            extra_fixed_tokens_ = other.extra_fixed_tokens_;
+            adoptTokens();
+            return *this;
+        }
+
+        void Formatter::adoptTokens()
+        {
+            for (V_Token::iterator it = tokens_.begin(); it != tokens_.end(); ++it)
+            {
+                // This kind of token refers to the map of the formatter it was created by.
+                if (const FixedMapToken * token = dynamic_cast<const FixedMapToken *>(it->get()))
+                {
+                    it->reset(new FixedMapToken(token->str_, extra_fixed_tokens_));
+                }
+            }
+        }
+
             TokenPtr Formatter::createTokenFromType(const std::string& type)
                 {
                     if (type == "severity")
-- 
2.43.0


From 4e18693cba1fd22bcae76576f7f9d5503ce0e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 089/101] fix: ptimeToTimeval gives microseconds, also at
 nanosecond resolution and before 1970

---
 sm_boost/include/sm/boost/ptime.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sm_boost/include/sm/boost/ptime.hpp b/sm_boost/include/sm/boost/ptime.hpp
index fc7fa52..6d5f76c 100644
--- a/sm_boost/include/sm/boost/ptime.hpp
+++ b/sm_boost/include/sm/boost/ptime.hpp
@@ -11,9 +11,19 @@ namespace sm {
         
         // \todo: check for special values.
         boost::posix_time::time_duration duration( time - UNIX_EPOCH );
+        // Count in whole ticks, of whatever resolution posix_time has, and
+        // keep the microseconds within [0, 1000000) before 1970 as well.
+        const boost::posix_time::time_duration::tick_type perSecond = boost::posix_time::time_duration::ticks_per_second();
+        boost::posix_time::time_duration::tick_type seconds = duration.ticks() / perSecond;
+        boost::posix_time::time_duration::tick_type fraction = duration.ticks() % perSecond;
+        if( fraction < 0 )
+        {
+            fraction += perSecond;
+            --seconds;
+        }
         timeval tv;
-        tv.tv_sec = duration.total_seconds();
-        tv.tv_usec = duration.fractional_seconds();
+        tv.tv_sec = seconds;
+        tv.tv_usec = fraction / (perSecond / 1000000);
         return tv;
     }
 
-- 
2.43.0


From 0a241a89067d618e9f14c579fdcd6bd05e06b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 090/101] fix: the static assertion on matrix shapes tests the
 columns for a dynamic size

---
 sm_eigen/include/sm/eigen/static_assert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm_eigen/include/sm/eigen/static_assert.hpp b/sm_eigen/include/sm/eigen/static_assert.hpp
index db596f5..9ad236b 100644
--- a/sm_eigen/include/sm/eigen/static_assert.hpp
+++ b/sm_eigen/include/sm/eigen/static_assert.hpp
@@ -10,7 +10,7 @@
 
 // static assertion failing if the type \a TYPE is not a vector type of the given size
 #define EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE_OR_DYNAMIC(TYPE, ROWS, COLS) \
-  EIGEN_STATIC_ASSERT( (TYPE::RowsAtCompileTime==ROWS || TYPE::RowsAtCompileTime==Eigen::Dynamic) && (TYPE::ColsAtCompileTime==COLS || TYPE::RowsAtCompileTime==Eigen::Dynamic), \
+  EIGEN_STATIC_ASSERT( (TYPE::RowsAtCompileTime==ROWS || TYPE::RowsAtCompileTime==Eigen::Dynamic) && (TYPE::ColsAtCompileTime==COLS || TYPE::ColsAtCompileTime==Eigen::Dynamic), \
 					   THIS_METHOD_IS_ONLY_FOR_MATRICES_OF_A_SPECIFIC_SIZE)
 
 
-- 
2.43.0


From 52ca4bf1ae2bc51e2e2babec2f5f01e431a6bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 091/101] fix: the finiteness assertion takes expressions and
 does not capture the caller's r and c

---
 sm_eigen/include/sm/eigen/assert_macros.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/assert_macros.hpp b/sm_eigen/include/sm/eigen/assert_macros.hpp
index b7bc507..14d05c0 100755
--- a/sm_eigen/include/sm/eigen/assert_macros.hpp
+++ b/sm_eigen/include/sm/eigen/assert_macros.hpp
@@ -18,14 +18,14 @@
 
 #define SM_ASSERT_MAT_IS_FINITE(exceptionType, matrix, message)		\
   {									\
-  for(int r = 0; r < matrix.rows(); ++r)				\
+  for(int sm_assert_row = 0; sm_assert_row < (matrix).rows(); ++sm_assert_row)				\
     {									\
-      for(int c = 0; c < matrix.cols(); ++c)				\
+      for(int sm_assert_col = 0; sm_assert_col < (matrix).cols(); ++sm_assert_col)				\
 	{								\
-	  if(!std::isfinite(matrix(r,c)))				\
+	  if(!std::isfinite((matrix)(sm_assert_row,sm_assert_col)))				\
 	    {								\
 	      std::stringstream sm_assert_stringstream;		\
-	      sm_assert_stringstream << "debug assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << matrix(r,c) << " ) ]" << message << std::endl << matrix; \
+	      sm_assert_stringstream << "debug assert( isfinite(" << #matrix << "(" << sm_assert_row << ", " << sm_assert_col << ") ) failed. [ isfinite(" << (matrix)(sm_assert_row,sm_assert_col) << " ) ]" << message << std::endl << (matrix); \
 	      sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
 	    }								\
 	}								\
@@ -37,14 +37,14 @@
 
 #define SM_ASSERT_MAT_IS_FINITE_DBG(exceptionType, matrix, message)		\
   {									\
-  for(int r = 0; r < matrix.rows(); ++r)				\
+  for(int sm_assert_row = 0; sm_assert_row < (matrix).rows(); ++sm_assert_row)				\
     {									\
-      for(int c = 0; c < matrix.cols(); ++c)				\
+      for(int sm_assert_col = 0; sm_assert_col < (matrix).cols(); ++sm_assert_col)				\
 	{								\
-	  if(!std::isfinite(matrix(r,c)))				\
+	  if(!std::isfinite((matrix)(sm_assert_row,sm_assert_col)))				\
 	    {								\
 	      std::stringstream sm_assert_stringstream;		\
-	      sm_assert_stringstream << "assert( isfinite(" << #matrix << "(" << r << ", " << c << ") ) failed. [ isfinite(" << matrix(r,c) << " ) ]" << message << std::endl << matrix; \
+	      sm_assert_stringstream << "assert( isfinite(" << #matrix << "(" << sm_assert_row << ", " << sm_assert_col << ") ) failed. [ isfinite(" << (matrix)(sm_assert_row,sm_assert_col) << " ) ]" << message << std::endl << (matrix); \
 	      sm::detail::sm_throw_exception<exceptionType>("[" #exceptionType "] ", __FUNCTION__,__FILE__,__LINE__,sm_assert_stringstream.str()); \
 	    }								\
 	}								\
-- 
2.43.0


From 39ac833b447da8b6d00f4fea2eb196707cd672f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:20 +0000
Subject: [PATCH 092/101] fix: the Python converter of ids compiles with Python
 3 and covers all ids

---
 sm_python/include/sm/python/Id.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sm_python/include/sm/python/Id.hpp b/sm_python/include/sm/python/Id.hpp
index 2a3b902..cfec563 100755
--- a/sm_python/include/sm/python/Id.hpp
+++ b/sm_python/include/sm/python/Id.hpp
@@ -3,6 +3,7 @@
 
 #include <numpy_eigen/boost_python_headers.hpp>
 #include <boost/python/to_python_converter.hpp>
+#include <boost/python/errors.hpp>
 #include <Python.h>
 #include <boost/cstdint.hpp>
 
@@ -20,17 +21,26 @@ namespace sm { namespace python {
 
       // The "Convert from C to Python" API
       static PyObject * convert(id_t const & id){
-	PyObject * i = PyInt_FromLong(id.getId());
-    // It seems that the call to "incref(.)" caused a memory leak!
-    // I will check this in hoping it doesn't cause any instability.
-	return i;//boost::python::incref(i);
+        const boost::uint64_t value = id.getId();
+#if PY_MAJOR_VERSION < 3
+        if ( value <= static_cast<boost::uint64_t>(PyInt_GetMax()) ) {
+            return PyInt_FromLong(static_cast<long>(value));
+        }
+#endif
+        // The reference is new, it must not be increased again.
+        return PyLong_FromUnsignedLongLong(value);
       }
       
       // The "Convert from Python to C" API
       // Two functions: convertible() and construct()
       static void * convertible(PyObject* obj_ptr)
       {
-          if (!(PyInt_Check(obj_ptr) || PyLong_Check(obj_ptr)))
+#if PY_MAJOR_VERSION < 3
+          if ( PyInt_Check(obj_ptr) ) {
+              return obj_ptr;
+          }
+#endif
+          if ( !PyLong_Check(obj_ptr) )
               return 0;
           
           return obj_ptr;
@@ -43,10 +53,16 @@ namespace sm { namespace python {
 
 	// Get the value.
           boost::uint64_t value;
+#if PY_MAJOR_VERSION < 3
           if ( PyInt_Check(obj_ptr) ) {
               value = PyInt_AsUnsignedLongLongMask(obj_ptr);
-          } else {
+          } else
+#endif
+          {
               value = PyLong_AsUnsignedLongLong(obj_ptr);
+              if ( PyErr_Occurred() ) {
+                  boost::python::throw_error_already_set();
+              }
           }
         
           void* storage = ((boost::python::converter::rvalue_from_python_storage<id_t>*)
-- 
2.43.0


From 8066ab744edcd1d1e6c9b32b615a22bfdc049695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:03 +0000
Subject: [PATCH 093/101] fix: save() notices a write error when the binary
 archive is flushed

---
 sm_boost/include/sm/boost/serialization.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sm_boost/include/sm/boost/serialization.hpp b/sm_boost/include/sm/boost/serialization.hpp
index 7567aaf..01ef60e 100755
--- a/sm_boost/include/sm/boost/serialization.hpp
+++ b/sm_boost/include/sm/boost/serialization.hpp
@@ -33,6 +33,8 @@ namespace sm { namespace boost_serialization {
             {
                 ::boost::archive::binary_oarchive oa(ofs);
                 oa << object;
+                // the archive would flush as well, but not notice an error
+                ofs.flush();
             }
             detail::close(ofs, filename);
         }
-- 
2.43.0


From b9528bad618f70ed1ca20bbc64c47013043fe02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:34 +0000
Subject: [PATCH 094/101] fix: the text buffer of Engine::get is released

---
 sm_matlab/src/Engine.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sm_matlab/src/Engine.cpp b/sm_matlab/src/Engine.cpp
index d9e3d71..6890dce 100644
--- a/sm_matlab/src/Engine.cpp
+++ b/sm_matlab/src/Engine.cpp
@@ -1,6 +1,7 @@
 #include <sm/matlab/Engine.hpp>
 #include <cctype>
 #include <stdio.h>
+#include <vector>
 
 namespace sm {
   namespace matlab {
@@ -290,9 +291,9 @@ namespace sm {
 		// read data
 		// lenght + 1 because of 0 terminated string
 		size_t lenght = mxGetNumberOfElements(mxArray)+1;
-		char* buffer = new char[lenght];
-		mxGetString(mxArray, buffer, lenght);
-		rValue = buffer;
+		std::vector<char> buffer(lenght);
+		mxGetString(mxArray, &buffer[0], lenght);
+		rValue = &buffer[0];
 
 		return true;
     }
-- 
2.43.0


From 5a297ddae7b2c588be868badb4eee49f93edf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:57 +0000
Subject: [PATCH 095/101] fix: expectNear does not read outside of matrices of
 different sizes

---
 sm_eigen/include/sm/eigen/gtest.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 9c13b4e..94888dd 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -78,6 +78,9 @@ namespace sm { namespace eigen {
       EXPECT_EQ((size_t)A.rows(),(size_t)B.rows()) << message << "\nMatrix A:\n" << A << "\nand matrix B\n" << B << "\nare not the same\n" << sfp.toString();
       EXPECT_EQ((size_t)A.cols(),(size_t)B.cols()) << message << "\nMatrix A:\n" << A << "\nand matrix B\n" << B << "\nare not the same\n" << sfp.toString();
 
+      if(A.rows() != B.rows() || A.cols() != B.cols())
+        return;
+
       for(int r = 0; r < A.rows(); r++)
         {
           for(int c = 0; c < A.cols(); c++)
-- 
2.43.0


From 9788806bc93a961a9bc8e20794b7d64466993efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:57 +0000
Subject: [PATCH 096/101] fix: compareRelative tells NaN and infinity from
 other numbers

---
 sm_eigen/include/sm/eigen/gtest.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 94888dd..19652d7 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -111,13 +111,14 @@ namespace sm { namespace eigen {
 	  // \todo: does anyone have a better idea?
       double fa = fabs(a);
       double fb = fabs(b);
-      if( (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
+      if( a == b ||  // Infinite values have no relative difference.
+          (fa < 1e-15 && fb < 1e-15) ||  // Both zero.
 		  (fa == 0.0  && fb < 1e-6)  ||  // One exactly zero and the other small
 		  (fb == 0.0  && fa < 1e-6) )    // ditto
 		return true;
       
       double diff = fabs(a - b)/std::max(fa,fb);
-      if(diff > percentTolerance * 1e-2)
+      if(!(diff <= percentTolerance * 1e-2)) // NaN is never close.
 		{
 		  if(percentError)
 			*percentError = diff * 100.0;
-- 
2.43.0


From 2fb849e8fa57adb4a3f2927f8e5a25f3a8d8ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:57 +0000
Subject: [PATCH 097/101] fix: the arguments of ASSERT_DOUBLE_MX_EQ are those
 of the caller

---
 sm_eigen/include/sm/eigen/gtest.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sm_eigen/include/sm/eigen/gtest.hpp b/sm_eigen/include/sm/eigen/gtest.hpp
index 19652d7..a46af6d 100755
--- a/sm_eigen/include/sm/eigen/gtest.hpp
+++ b/sm_eigen/include/sm/eigen/gtest.hpp
@@ -131,16 +131,16 @@ namespace sm { namespace eigen {
 #define ASSERT_DOUBLE_MX_EQ(A, B, PERCENT_TOLERANCE, MSG)				\
     ASSERT_EQ((size_t)(A).rows(), (size_t)(B).rows())  << MSG << "\nMatrix " << #A << ":\n" << A << "\nand matrix " << #B << "\n" << B << "\nare not the same size"; \
     ASSERT_EQ((size_t)(A).cols(), (size_t)(B).cols())  << MSG << "\nMatrix " << #A << ":\n" << A << "\nand matrix " << #B << "\n" << B << "\nare not the same size"; \
-    for(int r = 0; r < (A).rows(); r++)									\
+    for(int sm_r_ = 0; sm_r_ < (A).rows(); sm_r_++)									\
       {																	\
-		for(int c = 0; c < (A).cols(); c++)								\
+		for(int sm_c_ = 0; sm_c_ < (A).cols(); sm_c_++)								\
 		  {																\
-			double percentError = 0.0;									\
-			ASSERT_TRUE(sm::eigen::compareRelative( (A)(r,c), (B)(r,c), PERCENT_TOLERANCE, &percentError)) \
+			double sm_percentError_ = 0.0;									\
+			ASSERT_TRUE(sm::eigen::compareRelative( (A)(sm_r_,sm_c_), (B)(sm_r_,sm_c_), PERCENT_TOLERANCE, &sm_percentError_)) \
 			  << MSG << "\nComparing:\n"								\
-			  << #A << "(" << r << "," << c << ") = " << (A)(r,c) << std::endl \
-			  << #B << "(" << r << "," << c << ") = " << (B)(r,c) << std::endl \
-			  << "Error was " << percentError << "% > " << PERCENT_TOLERANCE << "%\n" \
+			  << #A << "(" << sm_r_ << "," << sm_c_ << ") = " << (A)(sm_r_,sm_c_) << std::endl \
+			  << #B << "(" << sm_r_ << "," << sm_c_ << ") = " << (B)(sm_r_,sm_c_) << std::endl \
+			  << "Error was " << sm_percentError_ << "% > " << PERCENT_TOLERANCE << "%\n" \
 			  << "\nMatrix " << #A << ":\n" << A << "\nand matrix " << #B << "\n" << B; \
 		  }																\
       }
-- 
2.43.0


From fc022c0b8a7aec06cf9edb7c4db02b64ac4d5720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:23 +0000
Subject: [PATCH 098/101] fix: MatrixArchive::clear(name) does not use the name
 after erasing it

---
 sm_matrix_archive/src/MatrixArchive.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index 41a4878..beec3d9 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -35,8 +35,10 @@ namespace sm
   // clears a specific value from the archive.
   void MatrixArchive::clear(std::string const & entryName)
   {
-    m_values.erase(entryName);
-    m_strings.erase(entryName);
+    // The name may be the one stored with the entry; it ends with the entry.
+    if(m_values.erase(entryName) == 0){
+      m_strings.erase(entryName);
+    }
   }
 
   void MatrixArchive::setScalar(std::string const & scalarName, double scalar)
-- 
2.43.0


From 33e382df5411a0745485d8f312b357794559c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:23 +0000
Subject: [PATCH 099/101] fix: MatrixArchive::setString does not use the name
 after erasing it

---
 sm_matrix_archive/src/MatrixArchive.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sm_matrix_archive/src/MatrixArchive.cpp b/sm_matrix_archive/src/MatrixArchive.cpp
index beec3d9..5658898 100644
--- a/sm_matrix_archive/src/MatrixArchive.cpp
+++ b/sm_matrix_archive/src/MatrixArchive.cpp
@@ -53,10 +53,8 @@ namespace sm
   void MatrixArchive::setString(std::string const & stringName, std::string const & value)
   {
     validateName(stringName, SM_SOURCE_FILE_POS);
-    if(m_values.count(stringName) > 0){
-      m_values.erase(stringName);
-    }
     m_strings[stringName] = value;
+    m_values.erase(stringName);
   }
 
   const MatrixArchive::string_map_t & MatrixArchive::getStrings() const
-- 
2.43.0


From f181a8fecde51dff613c49f08fd9742b27d44a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:23 +0000
Subject: [PATCH 100/101] fix: a matrix of an archive can be replaced by a part
 of itself

---
 sm_matrix_archive/include/sm/MatrixArchive.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sm_matrix_archive/include/sm/MatrixArchive.hpp b/sm_matrix_archive/include/sm/MatrixArchive.hpp
index d8872bb..8bf07db 100644
--- a/sm_matrix_archive/include/sm/MatrixArchive.hpp
+++ b/sm_matrix_archive/include/sm/MatrixArchive.hpp
@@ -122,7 +122,9 @@ namespace sm {
     void MatrixArchive::setMatrix(std::string const & matrixName, Eigen::MatrixBase<Derived> const & matrix)
     {
       validateName(matrixName, SM_SOURCE_FILE_POS);
-      m_values[matrixName] = matrix;
+      // The expression may refer to the matrix it replaces.
+      Eigen::MatrixXd value(matrix);
+      m_values[matrixName].swap(value);
       m_strings.erase(matrixName);
     }
   
@@ -131,7 +133,9 @@ namespace sm {
     {
       SM_ASSERT_EQ(MatrixArchiveException, vector.cols(),1, "The input must be a column vector");
       validateName(vectorName, SM_SOURCE_FILE_POS);
-      m_values[vectorName] = vector;
+      // The expression may refer to the matrix it replaces.
+      Eigen::MatrixXd value(vector);
+      m_values[vectorName].swap(value);
       m_strings.erase(vectorName);
     }
 
-- 
2.43.0


From 317ba6f6050ed2800b601b72f65a7a41884b3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:20 +0000
Subject: [PATCH 101/101] fix: inverseTransformationAndJacobian can transform a
 vector in place

---
 sm_kinematics/src/transformations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sm_kinematics/src/transformations.cpp b/sm_kinematics/src/transformations.cpp
index b06cc43..9efadac 100755
--- a/sm_kinematics/src/transformations.cpp
+++ b/sm_kinematics/src/transformations.cpp
@@ -117,8 +117,8 @@ namespace sm { namespace kinematics {
 					  Eigen::Matrix<double,4,6> & out_B)
     {
       Eigen::Matrix4d T_ab = inverseTransform(T_ba);
-      out_v_a = T_ab * v_b;
-      
+
+      // v_b and out_v_a may be the same vector: the jacobian is of v_b.
       out_B.topLeftCorner<3,3>().noalias() = -v_b(3)*T_ab.topLeftCorner<3,3>();
       out_B.topRightCorner<3,3>().noalias() = -T_ab.topLeftCorner<3,3>() * crossMx(v_b(0),v_b(1),v_b(2));
       out_B(3,0) = 0.0;
@@ -127,6 +127,8 @@ namespace sm { namespace kinematics {
       out_B(3,3) = 0.0;
       out_B(3,4) = 0.0;
       out_B(3,5) = 0.0;
+
+      out_v_a = T_ab * v_b;
     }
 
     Eigen::Matrix<double,6,6> boxTimes(Eigen::Matrix4d const & T_ba)
-- 
2.43.0

