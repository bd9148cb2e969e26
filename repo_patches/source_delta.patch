From 3d0db799860915260679ddebe3c3dcbe2feddc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 01/53] fix: keep the result of GConstrainedFPT::transfer()
 inside of the value range

Rounding errors could push the mapped value below the lower or above the
upper boundary, particularly for values far away from the value range.
---
 include/geneva/GConstrainedFPT.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index c05dc3b..9c310d3 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -354,6 +354,14 @@ public:
 				 mapping = -localVal + ((long double)(region-1)*(upperBoundary - lowerBoundary) + 2*upperBoundary);
 			 }
 
+			 // Rounding errors in the above calculations (region is the result of a division) may
+			 // push the mapping out of the allowed value range, particularly for large regions
+			 if(!(mapping >= lowerBoundary)) {
+				 mapping = lowerBoundary;
+			 } else if(!(mapping <= upperBoundary)) {
+				 mapping = upperBoundary;
+			 }
+
 			 // fabs(mapping) will always be <= fabs(val), so this cast should never fail (if val was a valid fp value)
 			 return boost::numeric_cast<fp_type>(mapping);
 		 }
-- 
2.43.0


From 65af6a930fb00d9113e6646842c7bf81fbe34dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 02/53] fix: avoid integer overflows in
 GConstrainedIntT::transfer()

Values far away from the value range (e.g. the smallest or largest possible
integer) made intermediate results overflow, so that the mapped value could
lie outside of the boundaries.
---
 include/geneva/GConstrainedIntT.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/geneva/GConstrainedIntT.hpp b/include/geneva/GConstrainedIntT.hpp
index 7f5073b..51cc16a 100644
--- a/include/geneva/GConstrainedIntT.hpp
+++ b/include/geneva/GConstrainedIntT.hpp
@@ -186,24 +186,25 @@ public:
      * @return The transformed value
      */
     int_type transfer(const int_type &val) const override {
-        // Find out the size of the confined area
-        int_type lowerBoundary = GConstrainedNumT<int_type>::getLowerBoundary();
-        int_type upperBoundary = GConstrainedNumT<int_type>::getUpperBoundary();
+        // Find out the size of the confined area. Note that intermediate results may
+        // exceed the range of int_type, if val is far away from the boundaries
+        std::int64_t lowerBoundary = GConstrainedNumT<int_type>::getLowerBoundary();
+        std::int64_t upperBoundary = GConstrainedNumT<int_type>::getUpperBoundary();
 
         if (val >= lowerBoundary && val <= upperBoundary) {
             return val;
         } else {
             // The result
-            int_type mapping = int_type(0);
+            std::int64_t mapping = 0;
 
             // Find out the size of the value range. Note that both boundaries
             // are included, so that we need to add 1 to the difference.
-            int_type value_range = upperBoundary - lowerBoundary + int_type(1);
+            std::int64_t value_range = upperBoundary - lowerBoundary + int_type(1);
 
             if (val < lowerBoundary) {
                 // Find out how many full value ranges val is below the lower boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nBelowLowerBoundary = (lowerBoundary - (val + int_type(1))) / value_range;
+                std::int64_t nBelowLowerBoundary = (lowerBoundary - (val + int_type(1))) / value_range;
 
                 // We are dealing with descending (nBelowLowerBoundary is even) and
                 // ascending ranges (nBelowLowerBoundary is odd), which need to be treated differently
@@ -212,12 +213,12 @@ public:
                 mapping = val + (value_range * (nBelowLowerBoundary + int_type(1)));
                 if (nBelowLowerBoundary % 2 == 0) { // nBelowLowerBoundary is even
                     // Revert the value to a descending sequence
-                    mapping = revert(mapping);
+                    mapping = revert(int_type(mapping));
                 }
             } else { // val > getUpperBoundary()
                 // Find out how many full value ranges val is above the upper boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nAboveUpperBoundary = (val - upperBoundary - int_type(1)) / value_range;
+                std::int64_t nAboveUpperBoundary = (val - upperBoundary - int_type(1)) / value_range;
 
                 // We are dealing with descending (nAboveUpperBoundary is even) and
                 // ascending ranges (nAboveUpperBoundary is odd), which need to be treated differently
@@ -226,11 +227,11 @@ public:
                 mapping = val - (value_range * (nAboveUpperBoundary + int_type(1)));
                 if (nAboveUpperBoundary % 2 == 0) { // nAboveUpperBoundary is even
                     // Revert, as we are dealing with a descending value range
-                    mapping = revert(mapping);
+                    mapping = revert(int_type(mapping));
                 }
             }
 
-            return mapping;
+            return int_type(mapping);
         }
     }
 
-- 
2.43.0


From 99173d5b880ab9917736c89f74870391276f3857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:55 +0000
Subject: [PATCH 03/53] fix: wake up blocked producers after a non-blocking pop
 from GBoundedBufferT

---
 include/common/GBoundedBufferT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GBoundedBufferT.hpp b/include/common/GBoundedBufferT.hpp
index 1bb695d..4e38443 100644
--- a/include/common/GBoundedBufferT.hpp
+++ b/include/common/GBoundedBufferT.hpp
@@ -527,7 +527,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
@@ -554,7 +554,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
-- 
2.43.0


From b7953e835e18759b1d3fc299abe2c1343a6ae156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 04/53] fix: keep the best items when several are added to a
 partially filled GFixedSizePriorityQueueT

---
 include/common/GFixedSizePriorityQueueT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 3063763..b727656 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -329,13 +329,13 @@ public:
 		 double worstKnownEvaluation = Gem::Common::getWorstCase<double>(m_sortOrder);
 		 if (replace || m_data_deq.empty()) {
 			 m_data_deq.clear();
-		 } else {
-			 // Data already exists, we know better than the worst known valid
+		 } else if (m_maxSize != 0 && m_data_deq.size() >= m_maxSize) {
+			 // The queue is full, we know better than the worst known valid
 			 worstKnownEvaluation = this->evaluation(this->worst());
 		 }
 
 		 // At this point, worstKnownEvaluation will be
-		 // - the worst case, if the queue is empty or all entries in the queue will be replaced
+		 // - the worst case, if there is room left in the queue or all entries in the queue will be replaced
 		 // - the evaluation of the worst entry in the queue if we only add items (regardless of whether they will be cloned or not)
 		 for(auto const & item_ptr: items) {
 			 // Add the work item to the queue
-- 
2.43.0


From aa4a93d84548b0b3089ed3db3b6e8fe19f7b1634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 05/53] fix: setMaxSize(0) must not empty a
 GFixedSizePriorityQueueT

---
 include/common/GFixedSizePriorityQueueT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index b727656..9a537c0 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -452,8 +452,8 @@ public:
 	  * Sets the maximum size of the priority queue
 	  */
 	 void setMaxSize(std::size_t maxSize) {
-		 // Make sure the current size of m_data complies with maxSize
-		 if (m_data_deq.size() > maxSize) {
+		 // Make sure the current size of m_data complies with maxSize (0 means "unlimited")
+		 if (maxSize && m_data_deq.size() > maxSize) {
 			 m_data_deq.resize(maxSize);
 		 }
 
-- 
2.43.0


From 1bc385f45925d169ff0f4b3c20efc703e688aec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 06/53] fix: keep errors flagged by user code in
 GProcessingContainerT::process()

---
 include/courtier/GProcessingContainerT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GProcessingContainerT.hpp b/include/courtier/GProcessingContainerT.hpp
index b683669..c8a7c5d 100644
--- a/include/courtier/GProcessingContainerT.hpp
+++ b/include/courtier/GProcessingContainerT.hpp
@@ -306,7 +306,8 @@ public:
 			 m_processing_time = std::chrono::duration<double>(afterProcessing - afterPreProcessing).count();
 			 m_post_processing_time = std::chrono::duration<double>(afterPostProcessing - afterProcessing).count();
 
-			 m_processing_status = processingStatus::PROCESSED;
+			 // User code may have flagged an error through force_set_error()
+			 if(not this->has_errors()) m_processing_status = processingStatus::PROCESSED;
 		 } catch(boost::exception& e) {
 			 // Let the audience know we had an error
 			 m_processing_status = processingStatus::EXCEPTION_CAUGHT;
-- 
2.43.0


From 6ea001ff3e690c3edf7da4318d82668a5d4b05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 07/53] fix: sort old work items with a strict weak ordering

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 29f5567..bb99757 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -620,7 +620,7 @@ protected:
 			 , m_old_work_items_cnt.end()
 			 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
 				 using namespace boost;
-				 return x_ptr->getCollectionPosition() <= y_ptr->getCollectionPosition();
+				 return x_ptr->getCollectionPosition() < y_ptr->getCollectionPosition();
 			 }
 		 );
 		 // Remove duplicates
-- 
2.43.0


From 053c473c31b0839e2d7fdd90aa6c416782ce92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 08/53] fix: GMTExecutorT leaves processing errors to the
 submitter in release builds, too

---
 include/courtier/GExecutorT.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index bb99757..267e7c4 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1654,7 +1654,6 @@ protected:
 			 // Retrieve the future and check for errors
 			 try {
 				 result_type r = f.get();
-#ifdef DEBUG
 			 } catch(const g_processing_exception& e) {
 				 // This is an expected exception if processing has failed. We do nothing,
 				 // it is up to the caller to decide what to do with processing errors, and
@@ -1671,7 +1670,6 @@ protected:
 					 << "unsuccessful in the work item. We leave it to the" << std::endl
 					 << "caller to deal with this." << std::endl
 					 << GWARNING;
-#endif
 			 } catch(const std::exception& e) {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
-- 
2.43.0


From 246aa5abfb2665efcd4b41d3e2fe922438c974e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 09/53] fix: check the converted pointer in
 GSerialExecutorT::load_() and GMTExecutorT::load_()

---
 include/courtier/GExecutorT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 267e7c4..3909e7d 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1112,7 +1112,7 @@ protected:
 	 void load_(const GBaseExecutorT<processable_type> *cp) override {
 		 const auto p_load_ptr = dynamic_cast<GSerialExecutorT<processable_type> const *const>(cp);
 
-		 if (not cp) { // nullptr
+		 if (not p_load_ptr) { // nullptr
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GSerialExecutorT<processable_type>::load_(): Conversion error!" << std::endl
@@ -1448,7 +1448,7 @@ protected:
 	 void load_(const GBaseExecutorT<processable_type> *cp) override {
 		 const auto p_load_ptr = dynamic_cast<const GMTExecutorT<processable_type> *>(cp);
 
-		 if (not cp) { // nullptr
+		 if (not p_load_ptr) { // nullptr
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GMTExecutorT<processable_type>::load_(): Conversion error!" << std::endl
-- 
2.43.0


From 874fc9e993d4e8c05c12c6c8ce41728983ec2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 10/53] fix: compare percentages in
 GBrokerExecutorT::minPartialReturnRateReached()

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 3909e7d..8c3549b 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2389,7 +2389,7 @@ private:
 		 if(m_nReturnedCurrent == expectedNumber) return true;
 
 		 // Check if we have reached the minimum percentage
-		 double realPercentage = boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
+		 double realPercentage = 100. * boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
 		 return (realPercentage >= boost::numeric_cast<double>(this->getMinPartialReturnPercentage()));
 	 }
 
-- 
2.43.0


From 6d63671ebbff550f92f2f6e07460053543534c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 11/53] fix: late work items of earlier iterations do not abort
 GBrokerExecutorT::waitForTimeOut()

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 8c3549b..26694e6 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2237,7 +2237,7 @@ private:
 
 			 // For succesfully processed items, update the internal timeout variables,
 			 // so we know how much longer this cycle should run
-			 if(w_ptr->is_processed()) {
+			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
 		 } while(not halt());
-- 
2.43.0


From 4f7dfc1b37d8bc5767eebc5e64d978e155f2fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 12/53] fix: GBrokerExecutorT does not wait for work items when
 none were submitted

---
 include/courtier/GExecutorT.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 26694e6..54dc192 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -647,7 +647,7 @@ protected:
 		 m_n_erroneousItems += this->countItemsWithStatus(workItems, processingStatus::EXCEPTION_CAUGHT);
 
 		 // Make it known that the first iteration has ended (if this is the first iteration)
-		 if(m_in_first_iteration) {
+		 if(m_in_first_iteration && this->checkItemsSubmittedInObject()) {
 			 m_in_first_iteration = false;
 		 }
 
@@ -783,7 +783,7 @@ protected:
 		 // Set the start time of the new cycle. How this time is determined depends
 		 // on the actual executor. NOTE that the following call may block, if a start time cannot
 		 // yet be determined.
-		 if(this->inFirstIteration() && this->inFirstCycle()) {
+		 if(nSubmittedItems > 0 && this->inFirstIteration() && this->inFirstCycle()) {
 			 m_approx_cycle_start_time = this->determineInitialCycleStartTime();
 		 } else {
 			 m_approx_cycle_start_time = m_cycle_first_submission_time;
@@ -2216,6 +2216,9 @@ private:
 		 m_nReturnedCurrent = 0;
 		 executor_status_t status;
 
+		 // There is nothing to wait for if no items were submitted
+		 if(0 == this->getExpectedNumber()) return this->checkExecutionState(workItems);
+
 		 // Note: Old work items are cleared in the "workOn" function
 
 		 // Start to retrieve individuals and sort them into our vectors,
@@ -2269,6 +2272,9 @@ private:
 	 ) {
 		 executor_status_t status;
 
+		 // There is nothing to wait for if no items were submitted
+		 if(0 == this->getExpectedNumber()) return this->checkExecutionState(workItems);
+
 		 do {
 			 status = this->addWorkItemAndCheckCompleteness(
 				 this->retrieve() // Get the next item, waiting indefinitely
-- 
2.43.0


From b68272183ec677270c8ecae02dd88c9a3654480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 13/53] fix: resubmission leaves items that returned with
 errors to the submitter instead of throwing

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 54dc192..a7f4c10 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -769,7 +769,7 @@ protected:
 
 				 // Update the submission counter
 				 nSubmittedItems++;
-			 } else if(processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+			 } else if(processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps && this->inFirstCycle()) {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
 						 << "In GBaseExecutorT<processable_type>::submitAllWorkItems(): Error" << std::endl
-- 
2.43.0


From 9c3a5716aa3f572b62ddb12e250993295f33f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 14/53] fix: GBrokerExecutorT refuses invalid percentages for
 partial returns

---
 include/courtier/GExecutorT.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index a7f4c10..2b59eeb 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1872,11 +1872,17 @@ public:
 	  * before execution continues. Set to 0 to disable this option.
 	  */
 	 void setMinPartialReturnPercentage(std::uint16_t minPartialReturnPercentage) {
-		 Gem::Common::checkRangeCompliance<std::uint16_t>(
+		 if(not Gem::Common::checkRangeCompliance<std::uint16_t>(
 			 minPartialReturnPercentage
 			 , 0, 100
 			 , "GBrokerExecutorT<>::setMinPartialReturnPercentage()"
-		 );
+		 )) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GBrokerExecutorT<>::setMinPartialReturnPercentage(): Error!" << std::endl
+					 << "Invalid percentage " << minPartialReturnPercentage << std::endl
+			 );
+		 }
 		 m_minPartialReturnPercentage = minPartialReturnPercentage;
 	 }
 
-- 
2.43.0


From c8f4ffafd62c7c205a0ba309c030c3b1c773a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 15/53] fix: setMaxIteration and setMinIteration check the new
 value instead of the old one

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index a960af7..aa2e44a 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -844,11 +844,11 @@ std::size_t G_OptimizationAlgorithm_Base::getPopulationSize() const {
 void G_OptimizationAlgorithm_Base::setMaxIteration(std::uint32_t maxIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(maxIteration > 0 && maxIteration <= m_minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMaxIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	maxIteration << " is <= the minimum number " << m_minIteration << std::endl
 		);
 	}
 
@@ -877,11 +877,11 @@ std::uint32_t G_OptimizationAlgorithm_Base::getMaxIteration() const {
 void G_OptimizationAlgorithm_Base::setMinIteration(std::uint32_t minIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(m_maxIteration > 0 && m_maxIteration <= minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMinIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << minIteration << std::endl
 		);
 	}
 
-- 
2.43.0


From d4ee48acd56ae651243a19e058425c8c00dfe0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 16/53] fix: GCheckCombinerT loads and serializes its
 constraints

---
 include/geneva/GMultiConstraintT.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 1f10ed8..e44b80e 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,8 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>);
+        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & BOOST_SERIALIZATION_NVP(validityChecks_);
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +503,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GValidityCheckContainerT<ind_type>)
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
@@ -656,7 +657,7 @@ protected:
         );
 
         // Load our parent class'es data ...
-        GPreEvaluationValidityCheckT<ind_type>::load_(cp);
+        GValidityCheckContainerT<ind_type>::load_(cp);
 
         // and then our local data
         combinerPolicy_ = p_load->combinerPolicy_;
-- 
2.43.0


From 9b08eef61aa8c7b694be050be3a52d6f88c327fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 17/53] fix: GParameterSet::setRandomCrash refuses invalid
 probabilities

---
 src/geneva/GParameterSet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 41f1628..ec7ac89 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -1189,7 +1189,13 @@ void GParameterSet::setRandomCrash(
 	, double crashProb
 ) {
 	// Check that the crash probability is in the allowed value range
-	Gem::Common::checkRangeCompliance(crashProb, 0., 1., "GParameterSet::setRandomCrash()");
+	if(not Gem::Common::checkRangeCompliance(crashProb, 0., 1., "GParameterSet::setRandomCrash()")) {
+		throw gemfony_exception(
+			g_error_streamer(DO_LOG,  time_and_place)
+				<< "In GParameterSet::setRandomCrash(): Error!" << std::endl
+				<< "Invalid crash probability " << crashProb << " specified" << std::endl
+		);
+	}
 
 	// Set the value as demanded
 	m_useRandomCrash = useRandomCrash;
-- 
2.43.0


From 284b53da301461b26592d6d496279b4880c36bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 18/53] fix: an individual is marked as due for processing if
 any adaption attempt has modified it

---
 src/geneva/GParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index ec7ac89..bbb6de8 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -817,6 +817,7 @@ std::size_t GParameterSet::adapt() {
 	std::size_t nAdaptionAttempts = 0;
 	std::size_t nAdaptions = 0; // This is a measure of the "effective" adaption probability
 	std::size_t nInvalidAdaptions = 0;
+	bool modified = false; // Set if any of the attempts has modified the individual
 	double validity = 0;
 
 	// Perform adaptions until a valid solution was find. In the context
@@ -832,6 +833,7 @@ std::size_t GParameterSet::adapt() {
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
 			if ((nAdaptions = this->customAdaptions()) > 0) {
+				modified = true;
 				break;
 			}
 
@@ -850,7 +852,7 @@ std::size_t GParameterSet::adapt() {
 	}
 
 	// Make sure the individual is re-evaluated when fitness(...) is called next time
-	if(nAdaptions > 0) {
+	if(modified) {
 		this->mark_as_due_for_processing();
 	}
 
-- 
2.43.0


From 7be379ae80f10d9855d6acc5f6acc35fbede70cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 19/53] fix: crossOverWith does not ask for a cross-over
 position if there is only one parameter

---
 src/geneva/GParameterSet.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index bbb6de8..b793d32 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -694,8 +694,8 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 	}
 #endif /* DEBUG */
 
-	// Do the actual cross-over
-	if (not this_double_cnt.empty()) {
+	// Do the actual cross-over. There is nothing to exchange for less than two parameters
+	if (this_double_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		// We use this->cp as the source for getCrossOverPos in order to avoid
 		// having to mark getCrossOverPos const and this m_gr mutable.
@@ -706,7 +706,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_double_cnt.begin()+pos, cp_double_cnt.end(), this_double_cnt.begin()+pos);
 	}
 
-	if (not this_float_cnt.empty()) {
+	if (this_float_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_float_cnt.size());
 
@@ -715,7 +715,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_float_cnt.begin()+pos, cp_float_cnt.end(), this_float_cnt.begin()+pos);
 	}
 
-	if (not this_bool_cnt.empty()) {
+	if (this_bool_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_bool_cnt.size());
 
@@ -724,7 +724,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_bool_cnt.begin()+pos, cp_bool_cnt.end(), this_bool_cnt.begin()+pos);
 	}
 
-	if (not this_int_cnt.empty()) {
+	if (this_int_cnt.size() > 1) {
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_int_cnt.size());
 
-- 
2.43.0


From 99fdd25a5056bde0982c9a0ea0e3b668f631874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 20/53] fix: assignValueVector compares with the number of
 parameters of the requested activity mode

---
 include/geneva/GParameterSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index 9b7ec26..ee16ed3 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -672,14 +672,14 @@ public:
         , activityMode const &am = activityMode::DEFAULTACTIVITYMODE
     ) {
 #ifdef DEBUG
-        if (countParameters<par_type>() != parVec.size()) {
+        if (countParameters<par_type>(am) != parVec.size()) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
                     , time_and_place
                 )
                     << "In GParameterSet::assignValueVector(const std::vector<pat_type>&):" << std::endl
-                    << "Sizes don't match: " << countParameters<par_type>() << " / " << parVec.size() << std::endl
+                    << "Sizes don't match: " << countParameters<par_type>(am) << " / " << parVec.size() << std::endl
             );
         }
 #endif /* DEBUG */
-- 
2.43.0


From 854f129f6c271bfdcf2f065cf53e95c34a72c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 21/53] fix: negative constraint values close to 0 are reported
 as violations

---
 include/geneva/GMultiConstraintT.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index e44b80e..9c32f99 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -40,6 +40,8 @@
 #include "common/GGlobalDefines.hpp"
 
 // Standard header files go here
+#include <algorithm>
+#include <limits>
 #include <type_traits>
 
 // Boost header files go here
@@ -133,7 +135,11 @@ public:
             } else { // invalid
                 if (result < 0.) { // we need to calculate a replacement value
                     // Will be the more invalid the further below 0 "result" is
-                    return 1. + Gem::Common::gfabs(result);
+                    // and is always > 1, even if "result" is too small to change the sum
+                    return std::max(
+                        1. + Gem::Common::gfabs(result)
+                        , 1. + std::numeric_limits<double>::epsilon()
+                    );
                 } else { // result > 1, we may just return the unmodified value
                     return result;
                 }
-- 
2.43.0


From 7177b1304af90fa10d74ef0f8260a1ab8f6776cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:49 +0000
Subject: [PATCH 22/53] fix: Pareto dominance compares every fitness criterion
 instead of only the first one

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index b3124d7..2daf115 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1174,7 +1174,7 @@ bool GEvolutionaryAlgorithm::aDominatesB(
 	// x dominates y, if none of its fitness criteria is worse than the
 	// corresponding criterion from y
 	for (std::size_t i = 0; i < nCriteriaX; i++) {
-		if(isWorse(x_ptr, y_ptr)) return false;
+		if(isWorse(x_ptr->transformed_fitness(i), y_ptr->transformed_fitness(i), x_ptr->getMaxMode())) return false;
 	}
 
 	return true;
-- 
2.43.0


From 38729e34be205c6c7a2748df18980e332feea28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 23/53] fix: parents keep their order when the population is
 repaired after a job submission

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 4 ++--
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 2daf115..a4162ec 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -600,8 +600,8 @@ void GEvolutionaryAlgorithm::fixAfterJobSubmission() {
 		[iteration](std::shared_ptr <GParameterSet> p) { p->setAssignedIteration(iteration); }
 	);
 
-	// Make sure that parents are at the beginning of the array.
-	sort(
+	// Make sure that parents are at the beginning of the array (and remain in their order).
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index f481268..7a9bd33 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -493,8 +493,8 @@ void GSimulatedAnnealing::fixAfterJobSubmission() {
 		[iteration](std::shared_ptr <GParameterSet> p) { p->setAssignedIteration(iteration); }
 	);
 
-	// Make sure that parents are at the beginning of the array.
-	sort(
+	// Make sure that parents are at the beginning of the array (and remain in their order).
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
-- 
2.43.0


From 53eb9e02e595ec09b5217c13b118648003c0a46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 24/53] fix: simulated annealing refuses populations with fewer
 children than parents

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 7a9bd33..fd9477b 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -323,7 +323,7 @@ void GSimulatedAnnealing::populationSanityChecks_() const {
 
 	// We need at least as many children as parents
 	std::size_t popSize = this->getPopulationSize();
-	if (popSize <= this->m_n_parents) {
+	if (popSize < 2 * this->m_n_parents) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GSimulatedAnnealing::populationSanityChecks() :" << std::endl
-- 
2.43.0


From c8503fe408b08f9f225e4c51335bc8b6ff715a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 25/53] fix: GConstrainedFPNumCollectionT::transfer() keeps its
 result inside of the value range

---
 .../geneva/GConstrainedFPNumCollectionT.hpp   | 54 ++++++++++---------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index aafd3b9..2701d4f 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -175,39 +175,45 @@ public:
      * @return The transformed value
      */
     fp_type transfer(const fp_type &val) const override {
-        fp_type lowerBoundary = GConstrainedNumCollectionT<fp_type>::getLowerBoundary();
-        fp_type upperBoundary = GConstrainedNumCollectionT<fp_type>::getUpperBoundary();
+        // We calculate in long double precision and use a 64 bit region, compare GConstrainedFPT::transfer()
+        const fp_type lower = GConstrainedNumCollectionT<fp_type>::getLowerBoundary();
+        const fp_type upper = GConstrainedNumCollectionT<fp_type>::getUpperBoundary();
 
-        if (val >= lowerBoundary && val < upperBoundary) {
+        if (val >= lower && val < upper) {
             return val;
-        } else {
-            // Find out which region the value is in (compare figure transferFunction.pdf
-            // that should have been delivered with this software). Note that boost::numeric_cast<>
-            // may throw - exceptions must be caught in surrounding functions.
-            std::int32_t region = 0;
+        }
+
+        const auto localVal = static_cast<long double>(val);
+        const auto lowerBoundary = static_cast<long double>(lower);
+        const auto upperBoundary = static_cast<long double>(upper);
+
+        // Find out which region the value is in (compare figure transferFunction.pdf
+        // that should have been delivered with this software). Note that boost::numeric_cast<>
+        // may throw - exceptions must be caught in surrounding functions.
+        std::int64_t region = 0;
 
 #ifdef DEBUG
-            region = boost::numeric_cast<std::int32_t>(
-                Gem::Common::gfloor(
-                    (fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
+        region = boost::numeric_cast<std::int64_t>(
+            Gem::Common::gfloor((localVal - lowerBoundary) / (upperBoundary - lowerBoundary)));
 #else
-            region =	static_cast<std::int32_t>(Gem::Common::gfloor((fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
+        region = static_cast<std::int64_t>(
+            Gem::Common::gfloor((localVal - lowerBoundary) / (upperBoundary - lowerBoundary)));
 #endif
 
-            // Check whether we are in an odd or an even range and calculate the
-            // external value accordingly
-            fp_type mapping = fp_type(0.);
-            if (region % 2 == 0) { // can it be divided by 2 ? Region 0,2,... or a negative even range
-                mapping = val - fp_type(region) * (upperBoundary - lowerBoundary);
-            } else { // Range 1,3,... or a negative odd range
-                mapping = -val + (fp_type(region - 1) * (upperBoundary - lowerBoundary) + 2 * upperBoundary);
-            }
-
-            return mapping;
+        // Check whether we are in an odd or an even range and calculate the
+        // external value accordingly
+        long double mapping = 0.L;
+        if (region % 2 == 0) { // can it be divided by 2 ? Region 0,2,... or a negative even range
+            mapping = localVal - static_cast<long double>(region) * (upperBoundary - lowerBoundary);
+        } else { // Range 1,3,... or a negative odd range
+            mapping = -localVal + (static_cast<long double>(region - 1) * (upperBoundary - lowerBoundary) + 2 * upperBoundary);
         }
 
-        // Make the compiler happy
-        return fp_type(0.);
+        // Rounding in the above calculations may carry the result across the boundaries
+        if (!(mapping >= lowerBoundary)) { return lower; }
+        if (!(mapping <= upperBoundary)) { return upper; }
+
+        return static_cast<fp_type>(mapping);
     }
 
 protected:
-- 
2.43.0


From 3c45b777a1f3f529a088afee9711ea6b2acf804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 26/53] fix: multiplications of constrained values and
 setBoundaries of constrained collections use the external values

---
 include/geneva/GConstrainedNumCollectionT.hpp | 2 +-
 src/geneva/GConstrainedDoubleObject.cpp       | 6 +++---
 src/geneva/GConstrainedInt32Object.cpp        | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 06822e7..4d57b5b 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -255,7 +255,7 @@ public:
     virtual void setBoundaries(const num_type &lower, const num_type &upper) BASE {
         std::vector<num_type> currentValues;
         for (std::size_t pos = 0; pos < this->size(); pos++) {
-            currentValues.push_back(GParameterCollectionT<num_type>::value(pos));
+            currentValues.push_back(this->value(pos));
 
             // Check that the value is inside the allowed range
             if (currentValues[pos] < lower || currentValues[pos] > upper) {
diff --git a/src/geneva/GConstrainedDoubleObject.cpp b/src/geneva/GConstrainedDoubleObject.cpp
index 4877192..bb8d676 100644
--- a/src/geneva/GConstrainedDoubleObject.cpp
+++ b/src/geneva/GConstrainedDoubleObject.cpp
@@ -246,7 +246,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(min, max);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -258,7 +258,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(0., 1.);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -269,7 +269,7 @@ void GConstrainedDoubleObject::doubleMultiplyBy(
 	const double &val
 	, const activityMode &am
 ) {
-	GParameterT<double>::setValue(transfer(val * GParameterT<double>::value()));
+	GParameterT<double>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
diff --git a/src/geneva/GConstrainedInt32Object.cpp b/src/geneva/GConstrainedInt32Object.cpp
index 39249ce..996c2a3 100644
--- a/src/geneva/GConstrainedInt32Object.cpp
+++ b/src/geneva/GConstrainedInt32Object.cpp
@@ -244,7 +244,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 ) {
 	std::uniform_int_distribution<std::int32_t> uniform_int_distribution(min, max);
 	GParameterT<std::int32_t>::setValue(
-		transfer(GParameterT<std::int32_t>::value() * uniform_int_distribution(gr))
+		transfer(this->value() * uniform_int_distribution(gr))
 	);
 }
 
@@ -260,7 +260,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 	GParameterT<std::int32_t>::setValue(
 		transfer(
 			boost::numeric_cast<std::int32_t>(
-				boost::numeric_cast<double>(GParameterT<std::int32_t>::value())
+				boost::numeric_cast<double>(this->value())
 				* uniform_real_distribution(gr)
 			)
 		)
@@ -275,7 +275,7 @@ void GConstrainedInt32Object::int32MultiplyBy(
 	const std::int32_t &val
 	, const activityMode &am
 ) {
-	GParameterT<std::int32_t>::setValue(transfer(val * GParameterT<std::int32_t>::value()));
+	GParameterT<std::int32_t>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
-- 
2.43.0


From 5a9ce5a5171c0f5d515287749f8266c15e6de25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 27/53] fix: assignValueVector of integer and boolean
 parameters respects the activity mode

---
 include/geneva/GParameterBase.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/geneva/GParameterBase.hpp b/include/geneva/GParameterBase.hpp
index 94e3491..4f20ef7 100644
--- a/include/geneva/GParameterBase.hpp
+++ b/include/geneva/GParameterBase.hpp
@@ -1076,11 +1076,13 @@ inline void GParameterBase::assignValueVector<std::int32_t>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignInt32ValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignInt32ValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
@@ -1096,11 +1098,13 @@ inline void GParameterBase::assignValueVector<bool>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignBooleanValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignBooleanValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
-- 
2.43.0


From f7ce37997ae71528c33f8bc10db646553a79cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 28/53] fix: the GNumGaussAdaptorT constructor with a
 probability uses its sigma arguments

---
 include/geneva/GNumGaussAdaptorT.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index ef35362..7f87bba 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -141,7 +141,13 @@ public:
 		 , const double& probability
 	 )
 		 : GAdaptorT<num_type> (probability)
-	 { /* nothing */ }
+	 {
+		 // These functions do error checks on their values
+		 setSigmaAdaptionRate(sigmaSigma);
+		 setSigmaRange(minSigma, maxSigma);
+		 setSigma(sigma); // Must be set last so an error check for compliance with the boundaries can be made
+		 sigma_reset_ = sigma_;
+	 }
 
 	 /***************************************************************************/
 	 /**
-- 
2.43.0


From 37c611499c0f125869acbf62df7b7cd339a466d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 29/53] fix: adaptors refuse value ranges below the supported
 minimum before changing anything

---
 include/geneva/GAdaptorT.hpp         | 9 +++++++++
 include/geneva/GNumGaussAdaptorT.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GAdaptorT.hpp b/include/geneva/GAdaptorT.hpp
index a57d192..f991560 100644
--- a/include/geneva/GAdaptorT.hpp
+++ b/include/geneva/GAdaptorT.hpp
@@ -483,6 +483,15 @@ public:
 		 }
 #endif /* DEBUG */
 
+		 // As minAdProb is not allowed to fall below DEFMINADPROB, maxAdProb may not do so either
+		 if (maxAdProb < fp_type(DEFMINADPROB)) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GAdaptorT<T, fp_type>::setAdProbRange(): Error!" << std::endl
+					 << "maxAdProb " << maxAdProb << " is smaller than the minimum probability " << DEFMINADPROB << std::endl
+			 );
+		 }
+
 		 // Store the new values
 		 m_minAdProb = minAdProb;
 		 if (m_minAdProb < DEFMINADPROB) {
diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index 7f87bba..b6caeb3 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -256,7 +256,7 @@ public:
 	 ){
 		 using namespace Gem::Common;
 
-		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.)) {
+		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.) || maxSigma < fp_type(DEFAULTMINSIGMA)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GNumGaussAdaptorT::setSigmaRange(const fp_type&, const fp_type&):" << std::endl
-- 
2.43.0


From 91a36f96052ac570110d9a16565f81798e7640a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 30/53] fix: GNumGaussAdaptorT::updateOnStall() also reports a
 reset of the adaption probability

---
 include/geneva/GNumGaussAdaptorT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index b6caeb3..dc90aa9 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -403,11 +403,11 @@ public:
 		 , const num_type& range
 	 ) override {
 		 // Call our parent class'es function
-		 GAdaptorT<num_type>::updateOnStall(nStalls, range);
+		 bool updated = GAdaptorT<num_type>::updateOnStall(nStalls, range);
 
 		 // Reset the adaption probability
 		 if(sigma_ == sigma_reset_) {
-			 return false;
+			 return updated;
 		 } else {
 			 sigma_ = sigma_reset_;
 			 return true;
-- 
2.43.0


From de21fdf13b42c218f0798805209188c52ba39ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 31/53] fix: checkRangeCompliance() does not accept NaN

---
 include/common/GCommonMathHelperFunctionsT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/GCommonMathHelperFunctionsT.hpp b/include/common/GCommonMathHelperFunctionsT.hpp
index 65f98ab..2b10045 100644
--- a/include/common/GCommonMathHelperFunctionsT.hpp
+++ b/include/common/GCommonMathHelperFunctionsT.hpp
@@ -141,7 +141,8 @@ bool checkRangeCompliance(
 		);
    }
 
-	return not (val < lower || val > upper);
+	// Note that this also refuses NaN, which does not compare to anything
+	return val >= lower && val <= upper;
 }
 
 /******************************************************************************/
-- 
2.43.0


From e9545b0ea20a54ed8f13422f08203ae2246306a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 32/53] fix: GSwarmAlgorithm::setSwarmSizes() adapts the
 containers with data about each neighborhood

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d0e1164..357dc08 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -331,6 +331,10 @@ void GSwarmAlgorithm::setSwarmSizes(
 	m_n_neighborhoods = (nNeighborhoods >= 1) ? nNeighborhoods : 1;
 	m_default_n_neighborhood_members = (defaultNNeighborhoodMembers >= 2) ? defaultNNeighborhoodMembers : 2;
 
+	// Adapt the data structures that hold information about each neighborhood
+	m_n_neighborhood_members_cnt.resize(m_n_neighborhoods, 0);
+	m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
+
 	// Update our parent class'es values
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 }
-- 
2.43.0


From 5de256c0cd9bbd0b3bed569f8988863737a77ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 33/53] fix: GSwarmAlgorithm::load_() copies the global best
 instead of the algorithm

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 357dc08..8acaa57 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -199,7 +199,7 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
 			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
 		} else {
-			m_global_best_ptr = p_load->GObject::clone<GParameterSet>();
+			m_global_best_ptr = p_load->m_global_best_ptr->clone<GParameterSet>();
 		}
 	}
 	else if (p_load->inFirstIteration()) { // cp does not have a global best
-- 
2.43.0


From cd8c8c8e1f19dbdef939afc26f4c62a33d552f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 34/53] fix: swarm algorithms replace personal bests by better,
 not by worse positions

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 8acaa57..c9ae074 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -501,8 +501,8 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
 	if(isBetter(
-		std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
-		, ind_ptr->transformed_fitness(0)
+		ind_ptr->transformed_fitness(0)
+		, std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
 		, m
 	)) {
 		ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->registerPersonalBest(ind_ptr);
-- 
2.43.0


From b5f64ae33028e1b75f80870f22e769a00bbf50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 35/53] fix: neighborhoodsHaveNominalValues() is no longer
 inverted

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index c9ae074..93c9c51 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -870,7 +870,7 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
  */
 bool GSwarmAlgorithm::neighborhoodsHaveNominalValues() const {
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
-		if (m_n_neighborhood_members_cnt[n] == m_default_n_neighborhood_members) return false;
+		if (m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) return false;
 	}
 	return true;
 }
-- 
2.43.0


From a293e2933d7c6b6636efe04dbd51fd83ebeab8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 36/53] fix: setFiniteStep() and setStepSize() of gradient
 descents check their argument

---
 .../G_OptimizationAlgorithm_GradientDescent.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 22e9fcb..7734eef 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -104,12 +104,12 @@ void GGradientDescent::setNStartingPoints(std::size_t nStartingPoints) {
  * @param finiteStep The desired size of the adaption
  */
 void GGradientDescent::setFiniteStep(double finiteStep) {
-	// Check that finiteStep_ has an appropriate value
-	if (finiteStep_ <= 0. || finiteStep_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that finiteStep has an appropriate value
+	if (finiteStep <= 0. || finiteStep > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setFiniteStep(double): Error!" << std::endl
-				<< "Invalid values of finiteStep_: " << finiteStep_ << std::endl
+				<< "Invalid values of finiteStep: " << finiteStep << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
@@ -134,12 +134,12 @@ double GGradientDescent::getFiniteStep() const {
  * @param stepSize A multiplicative factor for the adaption process
  */
 void GGradientDescent::setStepSize(double stepSize) {
-	// Check that stepSize_ has an appropriate value
-	if (stepSize_ <= 0. || stepSize_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that stepSize has an appropriate value
+	if (stepSize <= 0. || stepSize > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setStepSize(double): Error!" << std::endl
-				<< "Invalid values of stepSize_: " << stepSize_ << std::endl
+				<< "Invalid values of stepSize: " << stepSize << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
-- 
2.43.0


From 0e157a70e55bc8c215e1264d23f6d609219de11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 37/53] fix: copies of scan parameters keep their values and
 number of steps

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 014efcc..81a8eea 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -212,9 +212,10 @@ public:
      * random number generator.
      */
     baseScanParT(const baseScanParT<T> &cp)
-        : m_var(cp.m_var)
+        : Gem::Common::GPODVectorT<T>(cp)
+        , m_var(cp.m_var)
         , m_step(cp.m_step)
-        , m_nSteps(cp.m_step)
+        , m_nSteps(cp.m_nSteps)
         , m_lower(cp.m_lower)
         , m_upper(cp.m_upper)
         , m_randomScan(cp.m_randomScan)
-- 
2.43.0


From 5b8f2e10acdede9bc19bb7826fa9fecadd98a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 38/53] fix: random scans of integer parameters stay inside of
 the requested range

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 81a8eea..1c5eba2 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -422,7 +422,7 @@ inline std::int32_t baseScanParT<std::int32_t>::getRandomItem(
         gr
         , std::uniform_int_distribution<std::int32_t>::param_type(
             m_lower
-            , m_upper + 1
+            , m_upper
         ));
 }
 
-- 
2.43.0


From 28649f6d541f2724acafdacddc4fe47e7f93b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 39/53] fix: scans of integer and boolean parameters on a grid
 visit each value once

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 1c5eba2..56cbca8 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -203,6 +203,8 @@ public:
                 , m_lower
                 , m_upper
             );
+            // The number of items may differ from the requested number of steps for discrete types
+            m_nSteps = this->m_data_cnt.size();
         }
     }
 
-- 
2.43.0


From 76a0f69a72d736eb34398a96c3110cb692ce23f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 40/53] fix: simple parameter scans perform exactly the
 requested number of scans

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 0620faa..4f2eac8 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -738,10 +738,7 @@ void GParameterScan::randomShuffle() {
 		// We were successful
 		m_cycleLogicHalt = false;
 
-		//------------------------------------------------------------------------
-		// We do not want to exceed the boundaries of the population -- stop
-		// if we have reached the end of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
+		++indPos;
 
 		//------------------------------------------------------------------------
 		// Make sure we terminate when the desired overall number of random scans has
@@ -754,11 +751,16 @@ void GParameterScan::randomShuffle() {
 			this->resetParameterObjects();
 
 			// Resize the population, so we only have modified individuals
-			this->resize(indPos + 1);
+			this->resize(indPos);
 
 			// Terminate the loop
 			break;
 		}
+
+		//------------------------------------------------------------------------
+		// We do not want to exceed the boundaries of the population -- stop
+		// if we have reached the end of the population
+		if (indPos >= this->getDefaultPopulationSize()) break;
 	}
 }
 
-- 
2.43.0


From 174851371f01ac6a43682706a2c890d929636a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 41/53] fix: the requested number of simple scans is kept for
 the next optimization run

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 4f2eac8..19d419d 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -788,8 +788,6 @@ void GParameterScan::resetParameterObjects() {
 	for (d_it = m_d_cnt.begin(); d_it != m_d_cnt.end(); ++d_it) {
 		(*d_it)->resetPosition();
 	}
-
-	m_simpleScanItems = std::size_t(0);
 }
 
 /******************************************************************************/
-- 
2.43.0


From c7af15482c7406e25fa09144553d70400a7178d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 42/53] fix: copies of smart pointers to cloneable objects work
 for objects of different types and empty pointers

---
 include/common/GCommonHelperFunctionsT.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/common/GCommonHelperFunctionsT.hpp b/include/common/GCommonHelperFunctionsT.hpp
index 12c281c..928855a 100644
--- a/include/common/GCommonHelperFunctionsT.hpp
+++ b/include/common/GCommonHelperFunctionsT.hpp
@@ -471,7 +471,9 @@ void copyCloneableSmartPointer (
 	if(not from) {
 		to.reset();
 	} else {
-		if(not to) {
+		// The data of an object may only be loaded into an object of the same type
+		T const *from_ptr = from.get(), *to_ptr = to.get();
+		if(not to || typeid(*from_ptr) != typeid(*to_ptr)) {
 			to = from->T::template clone<T>();
 		} else {
 			to->T::load(from);
@@ -511,7 +513,8 @@ void copyCloneableSmartPointerContainer(
 
 		// Then attach copies of the remaining items
 		for(it_from=from.begin()+size_to; it_from!=from.end(); ++it_from) {
-			to.push_back((*it_from)->T::template clone<T>());
+			to.push_back(std::shared_ptr<T>());
+			copyCloneableSmartPointer(*it_from, to.back());
 		}
 	} else if(size_from < size_to) {
 		// First copy the initial size_for items over
-- 
2.43.0


From 3afdefdf3e29d80f51f5fbd28f46c79a8956798d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 43/53] fix: assigning a std::vector to a GPtrVectorT works for
 items of different types

---
 include/common/GPtrVectorT.hpp | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index c008f84..7884c3e 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -178,35 +178,7 @@ public:
 	 * @return A reference to this object
 	 */
 	 GPtrVectorT<T,B> &operator=(std::vector<std::shared_ptr<T>> const& cp) {
-		typename std::vector<std::shared_ptr <T>>::const_iterator cp_it;
-		typename std::vector<std::shared_ptr <T>>::iterator it;
-
-		std::size_t localSize = m_data_cnt.size();
-		std::size_t cpSize = cp.size();
-
-		if (cpSize == localSize) { // The most likely case
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-		} else if (cpSize > localSize) {
-			// First copy the initial elements
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-
-			// Then attach the remaining objects from cp
-			for (cp_it = cp.begin() + localSize; cp_it != cp.end(); ++cp_it) {
-				m_data_cnt.push_back((*cp_it)->T::template clone<T>());
-			}
-		} else if (cpSize < localSize) {
-			// First get rid of surplus items
-			m_data_cnt.resize(cpSize);
-
-			// Then copy the elements
-			for (it = m_data_cnt.begin(), cp_it = cp.begin(); it != m_data_cnt.end(); ++it, ++cp_it) {
-				(*it)->B::load(*cp_it);
-			}
-		}
+		Gem::Common::copyCloneableSmartPointerContainer(cp, m_data_cnt);
 
 		return *this;
 	}
-- 
2.43.0


From 4f4c05b480c5ef46aa0e21851260826f7bc07fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 44/53] fix: inserting no items into and shrinking of a
 GPtrVectorT work in all cases

---
 include/common/GPtrVectorT.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index 7884c3e..67b4e09 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -498,6 +498,10 @@ public:
 			);
 		}
 
+		if (0 == amount) { // Nothing to be inserted
+			return;
+		}
+
 		std::size_t iterator_pos = pos - m_data_cnt.begin();
 		// Create (amount-1) clones
 		for (std::size_t i = 0; i < amount - 1; i++) {
@@ -605,7 +609,8 @@ public:
 			);
 		}
 
-		this->resize_clone(amount, this->at(0));
+		// There is nothing to be copied, if the size isn't increased
+		this->resize_clone(amount, this->empty() ? std::shared_ptr<T>() : this->at(0));
 	}
 
 	/* ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 9b8496e6d58e4a3490831b09f46c28e0d6950b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 45/53] fix: counting and searching items in containers of
 items of different types

---
 include/common/GPtrVectorT.hpp | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/include/common/GPtrVectorT.hpp b/include/common/GPtrVectorT.hpp
index 67b4e09..da8ea2a 100644
--- a/include/common/GPtrVectorT.hpp
+++ b/include/common/GPtrVectorT.hpp
@@ -250,19 +250,9 @@ public:
             m_data_cnt.begin()
             , m_data_cnt.end()
             , [&item](const std::shared_ptr <T> &cont_item) -> bool {
-#ifdef DEBUG
-                try {
-                    return (*item == *(std::dynamic_pointer_cast<item_type>(cont_item)));
-                }
-                catch(...) {
-                    throw gemfony_exception(
-                        g_error_streamer(DO_LOG, time_and_place)
-                            << "Conversion error in GPtrVectorT::count()" << std::endl
-                    );
-                }
-#else
-                return (*item == *(std::static_pointer_cast<item_type>(cont_item)));
-#endif
+                // Items of another type differ from item
+                auto typed_item = std::dynamic_pointer_cast<item_type>(cont_item);
+                return typed_item && (*item == *typed_item);
             }
         ));
     }
@@ -294,18 +284,9 @@ public:
 
 		return std::find_if(
 			m_data_cnt.begin(), m_data_cnt.end(), [&item](const std::shared_ptr <T> &cont_item) -> bool {
-#ifdef DEBUG
-            try {
-               return (*item == *(std::dynamic_pointer_cast<item_type>(cont_item)));
-            } catch(...) {
-					throw gemfony_exception(
-						g_error_streamer(DO_LOG, time_and_place)
-							<< "Conversion error in GPtrVectorT::find()" << std::endl
-					);
-            }
-#else
-				return (*item == *(std::static_pointer_cast<item_type>(cont_item)));
-#endif
+            // Items of another type differ from item
+            auto typed_item = std::dynamic_pointer_cast<item_type>(cont_item);
+            return typed_item && (*item == *typed_item);
 			}
 		);
 	}
-- 
2.43.0


From 0519388bf3b38658478ab411034df0e10a912095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:54 +0000
Subject: [PATCH 46/53] fix: copies of parameter set factories keep their
 pre-processor

---
 include/geneva/GParameterSetFactory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GParameterSetFactory.hpp b/include/geneva/GParameterSetFactory.hpp
index 91839ca..b7e41a6 100644
--- a/include/geneva/GParameterSetFactory.hpp
+++ b/include/geneva/GParameterSetFactory.hpp
@@ -90,7 +90,7 @@ public:
 	 GParameterSetFactory(const GParameterSetFactory& cp)
 		 : Gem::Common::GFactoryT<GParameterSet>(cp)
 	 {
-		 Gem::Common::copyCloneableSmartPointer(cp.m_postProcessor, m_postProcessor);
+		 Gem::Common::copyCloneableSmartPointer(cp.m_preProcessor, m_preProcessor);
 		 Gem::Common::copyCloneableSmartPointer(cp.m_postProcessor, m_postProcessor);
 	 }
 
-- 
2.43.0


From 984f6f6a2f511059f66daffd79ebd9c377ccf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:23 +0000
Subject: [PATCH 47/53] fix: copies of optimization algorithms keep the
 iteration offset

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index aa2e44a..7335884 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -189,7 +189,7 @@ G_OptimizationAlgorithm_Base::G_OptimizationAlgorithm_Base(const G_OptimizationA
 	: GObject(cp)
 	  , Gem::Common::GPtrVectorT<GParameterSet, Gem::Geneva::GObject>(cp)
 	  , m_iteration(cp.m_iteration)
-	  , m_offset(DEFAULTOFFSET)
+	  , m_offset(cp.m_offset)
 	  , m_minIteration(cp.m_minIteration)
 	  , m_maxIteration(cp.m_maxIteration)
 	  , m_maxStallIteration(cp.m_maxStallIteration)
-- 
2.43.0


From 9653a0379a4ceff4eb9dbbbaf80600b9ad270613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 48/53] fix: GGradientDescent::load_() copies the step ratio

---
 src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 7734eef..7d06cb4 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -267,6 +267,7 @@ void GGradientDescent::load_(const GObject *cp) {
 	nFPParmsFirst_ = p_load->nFPParmsFirst_;
 	finiteStep_ = p_load->finiteStep_;
 	stepSize_ = p_load->stepSize_;
+	stepRatio_ = p_load->stepRatio_;
 	// stepRatio_ = p_load->stepRatio_; // temporary parameter
 	// m_dbl_lower_parameter_boundaries_cnt = p_load->m_dbl_lower_parameter_boundaries_cnt; // temporary parameter
 	// m_dbl_upper_parameter_boundaries_cnt = p_load->m_dbl_upper_parameter_boundaries_cnt; // temporary parameter
-- 
2.43.0


From 4a425a087c8b3322b800ae632c57d10baf71016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:36 +0000
Subject: [PATCH 49/53] fix: checkpoint() does not remove the checkpoint file
 it has just written

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index 7335884..203c502 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -264,8 +264,9 @@ void G_OptimizationAlgorithm_Base::checkpoint(bool is_better) const {
 	if(do_save) {
 		saveCheckpoint(output_file);
 
-		// Remove the last checkoint file if requested by the user
-		if(m_cp_remove && m_cp_last != "empty") {
+		// Remove the last checkoint file if requested by the user. Note that a file of
+		// the same name (e.g. of a previous run) has just been replaced by the new one.
+		if(m_cp_remove && m_cp_last != "empty" && m_cp_last != output_file.string()) {
 			if(std::filesystem::exists(std::filesystem::path(m_cp_last))) {
 				std::filesystem::remove(std::filesystem::path(m_cp_last));
 			}
-- 
2.43.0


From 855aa9fe08c60c97e463b8b909df73f23d6a0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:37 +0000
Subject: [PATCH 50/53] fix: GParameterSet::setFitness_() marks invalid
 individuals as processed

The function is documented to clear the dirty flag. For individuals that
violate a constraint it stored the worst case without doing so, hence they
remained due for processing after cannibalize().
---
 src/geneva/GParameterSet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index b793d32..9f90106 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -1733,7 +1733,9 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 		this->markAsProcessedWith(processing_results);
 	} else { // Some constraints were violated. Act on the chosen policy
 		if (evaluationPolicy::USEWORSTCASEFORINVALID == m_eval_policy) {
-			this->setAllFitnessTo(this->getWorstCase());
+			this->markAsProcessedWith(std::vector<parameterset_processing_result>(
+				f_cnt.size(), parameterset_processing_result(this->getWorstCase(), this->getWorstCase())
+			));
 		} else if (evaluationPolicy::USESIGMOID == m_eval_policy) {
 			double uniformFitnessValue = 0.;
 			if (maxMode::MAXIMIZE == this->getMaxMode()) { // maximize
@@ -1750,7 +1752,9 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 				}
 			}
 
-			this->setAllFitnessTo(this->getWorstCase(), uniformFitnessValue);
+			this->markAsProcessedWith(std::vector<parameterset_processing_result>(
+				f_cnt.size(), parameterset_processing_result(this->getWorstCase(), uniformFitnessValue)
+			));
 		}
 	}
 }
-- 
2.43.0


From 00a9dbccd25fb037cc6cf99311f18935845ca587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 51/53] fix: negative wait factors disable the timeout of the
 broker executor, as documented

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 2b59eeb..e9c592d 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2151,7 +2151,7 @@ protected:
 	 ) override {
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
-			 (m_capable_of_full_return || m_waitFactor == 0.)?
+			 (m_capable_of_full_return || m_waitFactor <= 0.)?
 			 this->waitForFullReturn(workItems, oldWorkItems):
 			 this->waitForTimeOut(workItems, oldWorkItems);
 	 }
-- 
2.43.0


From 412b5c5fb8fa4c731685e5a6b9331bc7ff0d6c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 52/53] fix: GNumBiGaussAdaptorT::customQueryProperty reports
 sigma2 when asked for it

---
 include/geneva/GNumBiGaussAdaptorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GNumBiGaussAdaptorT.hpp b/include/geneva/GNumBiGaussAdaptorT.hpp
index d4c5d28..53739db 100644
--- a/include/geneva/GNumBiGaussAdaptorT.hpp
+++ b/include/geneva/GNumBiGaussAdaptorT.hpp
@@ -789,7 +789,7 @@ protected:
         if (property == "sigma1") {
             data.push_back(boost::any(sigma1_));
         } else if (property == "sigma2") {
-            data.push_back(boost::any(sigma1_));
+            data.push_back(boost::any(sigma2_));
         } else if (property == "delta") {
             data.push_back(boost::any(delta_));
         } else {
-- 
2.43.0


From e2c62330b591d06b67d6e8b3c6c004e9ed611641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:48 +0000
Subject: [PATCH 53/53] fix: networked clients return work items whose
 processing failed

---
 include/courtier/GCommandContainerT.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index d11bc85..8df909c 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -63,6 +63,7 @@
 #include <boost/lexical_cast.hpp>
 
 // Geneva headers go here
+#include "common/GLogger.hpp"
 #include "courtier/GCourtierEnums.hpp"
 #include "courtier/GProcessingContainerT.hpp"
 
@@ -187,13 +188,23 @@ public:
 
 	 //-------------------------------------------------------------------------
 	 /**
-	  * Processing of the payload (if any)
-	  *
-	  * // TODO: Check for errors during processing
+	  * Processing of the payload (if any). Errors raised by the payload are
+	  * recorded inside of the payload itself, so that they may be dealt with
+	  * by the recipient of the processed item. They must not keep the item
+	  * from being returned.
 	  */
 	 void process() {
 		 if(m_payload_ptr) {
-			 m_payload_ptr->process();
+			 try {
+				 m_payload_ptr->process();
+			 } catch(const g_processing_exception& e) {
+				 glogger
+					 << "In GCommandContainerT<processable_type, command_type>::process():" << std::endl
+					 << "Caught a g_processing_exception while processing the work item:" << std::endl
+					 << e.what() << std::endl
+					 << "The item will be returned with its error flagged." << std::endl
+					 << GWARNING;
+			 }
 		 } else {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG,  time_and_place)
-- 
2.43.0

