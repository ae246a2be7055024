From f585ba624b735dd328c40d97a64762292c21db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 01/26] fix: strided binary-vector tests must end after ne
 elements of stride ld

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..6cc6706 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From 7c872e00e3c82d772e2cd22914c565a1cdfc762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 02/26] fix: clone_to_no_bias() must size a bias-emulating
 destination without biases

---
 nntl/interface/math/smatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 6cc6706..53c5422 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -496,7 +496,8 @@ namespace math {
 					NNTL_ASSERT(!"Wrong dest matrix!");
 					return false;
 				}
-			} else {				
+			} else {
+				dest.m_bEmulateBiases = false;//to make resize() work correctly if dest.m_bEmulateBiases==true
 				if (!dest.resize(m_rows, cnb)) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
-- 
2.43.0


From 75be0b66071df730290ecd90685d092d110ab8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 03/26] fix: smatrix_deform::submatrix_cols_no_bias() must keep
 the batch layout flag

---
 nntl/interface/math/smatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 53c5422..649a123 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1412,7 +1412,7 @@ namespace math {
 			NNTL_ASSERT(numCols);
 			NNTL_ASSERT(colStart + numCols <= cols_no_bias());
 			NNTL_ASSERT(!emulatesBiases() || bBatchInColumn());
-			return smatrix_deform(colDataAsVec(colStart), rows(), numCols, false);
+			return smatrix_deform(colDataAsVec(colStart), rows(), numCols, false, false, bBatchInRow());
 		}
 
 		// #supportsBatchInRow
-- 
2.43.0


From 7f94af39f67e0574e58fbe69e5fa0c6c1f1047e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:43 +0000
Subject: [PATCH 04/26] fix: nans_no_bias() leaves biases untouched and must
 not drop the holey-biases flag

---
 nntl/interface/math/smatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 649a123..12e90b7 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1123,7 +1123,6 @@ namespace math {
 			NNTL_ASSERT(!emulatesBiases() || bBatchInColumn());
 			//::std::fill(m_pData, m_pData + numel(), value_type(1.0)); //doesn't get vectorized!
 			_fill_seq_elements(m_pData, numel_no_bias(), ::std::numeric_limits<value_type>::quiet_NaN());
-			m_bHoleyBiases = false;
 		}
 
 		//////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 01b0e9b7ceea4a108d8770ba328d5083055f141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:16 +0000
Subject: [PATCH 05/26] fix: ~Workers() must raise the stop flag under the
 mutex, or a worker can miss it and join() hangs

---
 nntl/interface/threads/workers.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/workers.h b/nntl/interface/threads/workers.h
index 177f22c..0fd3fd2 100644
--- a/nntl/interface/threads/workers.h
+++ b/nntl/interface/threads/workers.h
@@ -92,11 +92,12 @@ namespace threads {
 
 	public:
 		~Workers()noexcept {
+			//the flag must be raised under the lock, or a worker that has already tested it, but hasn't yet started to wait,
+			//would miss the notification and join() would hang
+			m_mutex.lock();
 			m_bStop = true;
-
-			//m_mutex.lock();
 			m_waitingOrders.notify_all();
-			//m_mutex.unlock();
+			m_mutex.unlock();
 
 			for (auto& t : m_threads)  t.join();
 		}
-- 
2.43.0


From d71faa8d77cc560cb1aa7c4c3604dae0f78ac353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:42 +0000
Subject: [PATCH 06/26] fix: in-memory train data storage accepts valid data
 sets stored with batches in rows

---
 nntl/train_data/inmem_train_data_stor.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nntl/train_data/inmem_train_data_stor.h b/nntl/train_data/inmem_train_data_stor.h
index 00ff57c..d505589 100644
--- a/nntl/train_data/inmem_train_data_stor.h
+++ b/nntl/train_data/inmem_train_data_stor.h
@@ -176,10 +176,10 @@ namespace nntl {
 			static bool absorbsion_will_succeed(const x_mtxdef_t& _train_x, const y_mtxdef_t& _train_y
 				, const x_mtxdef_t& _test_x, const y_mtxdef_t& _test_y)noexcept //, const bool noBiasEmulationNecessary) noexcept
 			{
-				return !_train_x.empty() && !_train_y.empty() && _train_x.rows() == _train_y.rows()
-					&& !_test_x.empty() && !_test_y.empty() && _test_x.rows() == _test_y.rows()
-					&& _train_y.cols() == _test_y.cols()
-					&& _train_x.cols() == _test_x.cols()
+				return !_train_x.empty() && !_train_y.empty() && _train_x.batch_size() == _train_y.batch_size()
+					&& !_test_x.empty() && !_test_y.empty() && _test_x.batch_size() == _test_y.batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size()
+					&& _train_x.sample_size() == _test_x.sample_size()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& _train_x.emulatesBiases() && _test_x.emulatesBiases()
 					&& !_train_x.bDontManageStorage() && !_test_x.bDontManageStorage()
@@ -191,9 +191,9 @@ namespace nntl {
 			// #supportsBatchInRow
 			bool replace_Y_will_succeed(const y_mtxdef_t& _train_y, const y_mtxdef_t& _test_y)const noexcept
 			{
-				return !_train_y.empty() && _train_y.rows() == train_y().rows()
-					&& !_test_y.empty() && _test_y.rows() == test_y().rows()
-					&& _train_y.cols() == _test_y.cols()
+				return !_train_y.empty() && _train_y.batch_size() == train_y().batch_size()
+					&& !_test_y.empty() && _test_y.batch_size() == test_y().batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& !_train_y.bDontManageStorage() && !_test_y.bDontManageStorage()
 					;
-- 
2.43.0


From c98b6c3c7f8e96a0ce8c6a20e9f24f0ab4ac2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:22 +0000
Subject: [PATCH 07/26] fix: walking over a data set does not skip the last
 sample when it is alone in its batch

---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..ddc6c16 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -366,7 +366,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..0848e75 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -442,7 +442,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From 413038debe8a57b15abcf43fb1b3ea6566974285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:54 +0000
Subject: [PATCH 08/26] fix: train data report their initialization state for
 exactly the batch sizes they were initialized with

---
 nntl/train_data/_train_data_simple.h | 8 +++++---
 nntl/train_data/transf_train_data.h  | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index ddc6c16..6f884d0 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -162,13 +162,15 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
-				bMiniBatch = !m_batch_x.empty();
+				bMiniBatch = m_bMiniBatchTraining;
 				return true;
 			}
 
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 0848e75..4dd892e 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -280,12 +280,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes
 				const auto dr = ::std::div(tbs, m_TFunct.samplesInBaseSample());
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| 0 != dr.rem || tbs > fpropBs) return false;
+					|| 0 != dr.rem || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = dr.quot < get_self().base_trainset_samples_count();
 				return true;
-- 
2.43.0


From 3390c33f9eeac9b2582432305d8895e23526d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:05 +0000
Subject: [PATCH 09/26] fix: whole-data run-time normalization added a stale
 offset when only the scale was updated

---
 nntl/train_data/_td_norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/train_data/_td_norm.h b/nntl/train_data/_td_norm.h
index 1747962..2281632 100644
--- a/nntl/train_data/_td_norm.h
+++ b/nntl/train_data/_td_norm.h
@@ -155,7 +155,7 @@ namespace nntl {
 					if (bCentral) {
 						centralVal = (m_Setts.targetCentral - centralVal)*scaleVal;
 						get_self()._upd_ofs(centralVal);
-					}
+					} else centralVal = statsdata_t(0.);//the offset of an update without bOffset must be zero, see ScaleCentralData
 					
 					get_self()._do_normalize_whole(indstat_t(scaleVal, centralVal, bScale, bCentral));
 				}
-- 
2.43.0


From 6e44a5b2bca72ded07ab55e2763edb706910d01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:31 +0000
Subject: [PATCH 10/26] fix: top-K aggregation over batches loses or duplicates
 entries when values tie

---
 nntl/interface/math/_mcwFindKOrdered_hlpr.h | 36 ++++++---------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/nntl/interface/math/_mcwFindKOrdered_hlpr.h b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
index 194350e..f2904e0 100644
--- a/nntl/interface/math/_mcwFindKOrdered_hlpr.h
+++ b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
@@ -324,6 +324,10 @@ namespace math {
 						//invalid cache index (<0) signifies the values left from previous batches. If the index is valid,
 						//the value is from current batch.
 						// We should traverse cache now to properly aggregate it into m_allData
+						vec_len_t oldR = 0;//index of the first entry of m_allData that is still present in the cache
+						for (vec_len_t hr = 0; hr < k; ++hr) {
+							if (pIdxs[hr] >= 0) ++oldR;
+						}
 						for (vec_len_t hr = 0; hr < k; ++hr) {
 							//cache are written in ascending order, i.e. biggest - last
 							//NNTL_ASSERT(hr + 1 >= k || pVals[hr] < pVals[hr + 1]);
@@ -332,33 +336,11 @@ namespace math {
 							const auto nI = pIdxs[hr];
 							// new value at hr index could only be equal to or bigger than stored in m_allData.
 							if (nI < 0) {
-								//invalid index means that the value nV is left from old batch.
-								//NNTL_ASSERT(nV >= pDSE[hr].val);
-								NNTL_ASSERT(!OrderFunctor_t::first_better(pDSE[hr].val, nV));
-								if (nV == pDSE[hr].val) {
-									//nothing else should be done here. Every higher indexes must be the same, b/c any difference
-									//will lead to shifting values
-								#ifdef NNTL_DEBUG
-									for (vec_len_t r = hr + 1; r < k; ++r) {
-										NNTL_ASSERT(pDSE[r].val == pVals[r]);
-									}
-								#endif // NNTL_DEBUG
-									break;
-								} else {
-									// We must find corresponding entry in range [hr+1..k) and move it to the current position.
-									vec_len_t r = hr + 1;
-									for (; r < k; ++r) {
-										const auto& dse = pDSE[r];
-										//NNTL_ASSERT(nV >= dse.val);
-										NNTL_ASSERT(!OrderFunctor_t::first_better(dse.val, nV));
-										if (nV == dse.val) {
-											//moving dse to the hr index
-											pDSE[hr] = dse;
-											break;
-										}
-									}
-									NNTL_ASSERT(r < k || !"DatasetElement not found! WTF?!");
-								}
+								//invalid index means that the value nV is left from old batch. Each new value pushes out the worst
+								// of the old ones, therefore the old values left are the tail of m_allData in the same order. Note that
+								// for non-distinct orders equal values might occur several times, so don't search for an entry by a value.
+								NNTL_ASSERT(oldR >= hr && oldR < k && nV == pDSE[oldR].val);
+								pDSE[hr] = pDSE[oldR++];
 							} else {
 								//valid index means that the value nV is from the current batch. We must store it under hr index
 								auto& dse = pDSE[hr];
-- 
2.43.0


From dff824fa2197cd4a70746f30972f78adb08504b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:27 +0000
Subject: [PATCH 11/26] fix: grad_works::gw_init() set the common data before
 ILR_init() uses it

---
 nntl/grad_works/grad_works.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index fd24878..963415c 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -300,9 +300,9 @@ namespace nntl {
 				if (!m_optMtxB.resize(weightsSize))return false;
 			}
 
-			if (!ILR_init(weightsSize))return false;
+			set_common_data(cd);//must be done before ILR_init(), because it uses get_iMath()
 
-			set_common_data(cd);
+			if (!ILR_init(weightsSize))return false;
 
 			//we would need twice weightsNumel to make LRDropout for NesterovMomentum if necessary
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
-- 
2.43.0


From 5a818dbbb7a967134df62e13d0d1059b3f7347ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:38 +0000
Subject: [PATCH 12/26] fix: nnet::train() must train with the batch size it
 was asked for, not with the bigger one of an earlier call

---
 nntl/nnet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..1ea4ea0 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -579,7 +579,7 @@ namespace nntl {
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
-			_set_mode_and_batch_size(0);//prepare for training (sets to maxBatchSize, that's already stored in common_data structure)
+			_set_training_mode_and_batch_size(maxBatchSize);//prepare for training. common_data may hold a bigger size from a previous train() call
 
 #if NNTL_DEBUG_CHECK_DENORMALS_ON_EACH_EPOCH
 			STDCOUTL("Denormals check... " << (get_iMath().ithreads().denormalsOnInAnyThread() ? "FAILED!!!" : "passed.") 
@@ -655,8 +655,8 @@ namespace nntl {
 					// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 					if (!onEpochEndCB(/**this, opts,*/ epochIdx)) break;
 
-					//should always call _set_mode_and_batch_size(0) because onEpochEndCB could change this object state
-					_set_mode_and_batch_size(0);
+					//should always call _set_training_mode_and_batch_size(maxBatchSize) because onEpochEndCB could change this object state
+					_set_training_mode_and_batch_size(maxBatchSize);
 				}
 			}
 
-- 
2.43.0


From 0072b444cad7964cc347a1fef8dd7c9d84aee3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:09 +0000
Subject: [PATCH 13/26] fix: loss reports of nnet::train() must not feed the
 net with bigger batches than it was initialized for

A reused (bForceReinitTD(false)) train data object that was initialized for a bigger
maxFpropSize splits datasets into chunks of that size, overflowing buffers of a net
initialized for a smaller maxFpropSize.
---
 nntl/nnet.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 1ea4ea0..bf099f2 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -234,7 +234,9 @@ namespace nntl {
 
 		//returns train loss value
 		template<typename TrainDataT, typename Observer>
-		real_t _report_training_progress(const numel_cnt_t epoch, TrainDataT& td, const ::std::chrono::nanoseconds& tElapsed, Observer& obs) noexcept {
+		real_t _report_training_progress(const numel_cnt_t epoch, TrainDataT& td, const ::std::chrono::nanoseconds& tElapsed, Observer& obs
+			, const vec_len_t maxFPropSize = -1) noexcept
+		{
 			//relaxing thread priorities (we don't know in advance what callback functions actually do, so better relax it)
 			//threads_relaxer_tpl<bPrioritizeThreads> pw(get_iMath().ithreads());
 			// note sure it's necessary so pending for removal. If should be restored - wrap each obs.report_results() call instead of
@@ -243,8 +245,8 @@ namespace nntl {
 			m_Layers.resetCalcLossAddendum();//no need to additionally check m_bCalcFullLossValue, because
 			// resetCalcLossAddendum() is extremely cheap operation
 
-			const real_t trainLoss = calcLossAndReport(td, train_set_id, obs);
-			const auto testLoss = calcLossAndReport(td, test_set_id, obs);
+			const real_t trainLoss = calcLossAndReport(td, train_set_id, obs, maxFPropSize);
+			const auto testLoss = calcLossAndReport(td, test_set_id, obs, maxFPropSize);
 
 			obs.on_training_fragment_end(epoch, trainLoss, testLoss, tElapsed);			
 			return trainLoss;
@@ -260,8 +262,9 @@ namespace nntl {
 		//note that nnet object MUST already be initialized via train() or similar function to call
 		//observer used here MUST be initialized in conjunction with this nnet object.
 		// Intended to be used during/after training
+		// maxFPropSize - the biggest batch to fprop at once. Must be acceptable for both td and nnet. Negative value means what td was initialized to
 		template<typename TrainDataT, typename Observer>
-		real_t calcLossAndReport(TrainDataT& td, const data_set_id_t dataSetId, Observer& obs) noexcept {
+		real_t calcLossAndReport(TrainDataT& td, const data_set_id_t dataSetId, Observer& obs, const vec_len_t maxFPropSize = -1) noexcept {
 			NNTL_UNREF(obs); //observer may have only dummy functions that gets removed by optimizer.
 			NNTL_ASSERT(dataSetId >= 0 && dataSetId < td.datasets_count());
 			NNTL_ASSERT(!td.empty());
@@ -277,7 +280,7 @@ namespace nntl {
 			const auto& activations = *m_Layers.output_layer().get_activations_storage();//we won't touch it until it's valid
 			real_t lossVal(0);
 
-			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
+			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd, maxFPropSize);
 			NNTL_ASSERT(batchesCnt > 0);
 
 			obs.report_results_begin(dataSetId, batchesCnt);
@@ -578,7 +581,7 @@ namespace nntl {
 			opts.observer().on_training_start(td, maxBatchSize, maxFPropSize, m_LMR.totalParamsToLearn);
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
-			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
+			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer(), maxFPropSize);
 			_set_training_mode_and_batch_size(maxBatchSize);//prepare for training. common_data may hold a bigger size from a previous train() call
 
 #if NNTL_DEBUG_CHECK_DENORMALS_ON_EACH_EPOCH
@@ -638,7 +641,7 @@ namespace nntl {
 							STDCOUTL(szRep);
 						} else {
 							// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
-							const auto trainLoss = _report_training_progress(epochIdx, td, periodTime, opts.observer());
+							const auto trainLoss = _report_training_progress(epochIdx, td, periodTime, opts.observer(), maxFPropSize);
 							if (bCheckForDivergence && trainLoss >= opts.divergenceCheckThreshold())
 								return _set_last_error(ErrorCode::NNDiverged);
 						}
-- 
2.43.0


From fb0c4a3a57d365e6459890f37d799c9b4c4cc534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:47 +0000
Subject: [PATCH 14/26] fix: don't count penalties of stale activations of
 optional inner layers

A penalized layer inside of LPHO that has no samples to process in a batch
kept activations of some previous batch and contributed their penalty to the
loss value (and violated an assertion of get_activations() in debug builds).
---
 nntl/layer/extender.h                 | 3 ++-
 nntl/layer/pack_horizontal_optional.h | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/nntl/layer/extender.h b/nntl/layer/extender.h
index bd99e10..5710aae 100644
--- a/nntl/layer/extender.h
+++ b/nntl/layer/extender.h
@@ -143,7 +143,8 @@ namespace nntl {
 			// 			return _PAB_t::_pab_lossAddendum(get_activations(), get_iMath())
 			// 				+ (_base_class_t::hasLossAddendum() ? _base_class_t::lossAddendum() : real_t(0));
 			// 			//the commented code above costs about 2% of run time comparing to variant without _base_class_t::hasLossAddendum() call
-			return _PAB_t::_pab_lossAddendum(get_activations(), get_common_data())
+			//there may be no valid activations if the layer had nothing to process (in LPHO, for example)
+			return (is_activations_valid() ? _PAB_t::_pab_lossAddendum(get_activations(), get_common_data()) : real_t(0))
 				+ _base_class_t::lossAddendum();
 		}
 		template<bool c = bActivationPenalizationAvailable>
diff --git a/nntl/layer/pack_horizontal_optional.h b/nntl/layer/pack_horizontal_optional.h
index 66132a8..0751310 100644
--- a/nntl/layer/pack_horizontal_optional.h
+++ b/nntl/layer/pack_horizontal_optional.h
@@ -196,6 +196,10 @@ namespace nntl {
 			//depends on a gating neuron column content
 			const auto gtbs = gating_layer().on_batch_size_change(incBatchSize, m_activations.data());
 			NNTL_ASSERT(gtbs == outgBS);
+			//..., but activations they have must be invalidated, because some of the layers may have nothing to process.
+			tuple_utils::for_each_exc_first_up(m_phl_tuple, [incBatchSize](const auto& phl)noexcept {
+				phl.l.on_batch_size_change(incBatchSize, nullptr);
+			});
 			return outgBS;
 		}
 
@@ -278,6 +282,8 @@ namespace nntl {
 				} else {
 					//just zeroing current activations
 					curAct.zeros();
+					//the inner layer won't process this batch, therefore invalidating activations it has from some previous one
+					phl.l.on_batch_size_change(1, nullptr);
 				}
 
 				//getting ready to a next layer
-- 
2.43.0


From a2ea6c0bfad932d54ee33e2e14e06ee2862fd350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 15/26] fix: confusion matrix: Matthews correlation overflowed
 for a few hundred samples per cell

---
 nntl/utils/confusion_mtx.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/confusion_mtx.h b/nntl/utils/confusion_mtx.h
index 54f7dcc..b61e201 100644
--- a/nntl/utils/confusion_mtx.h
+++ b/nntl/utils/confusion_mtx.h
@@ -108,8 +108,9 @@ namespace nntl {
 			real_t Markedness()const noexcept { return PPV() + NPV() - real_t(1.); }
 			
 			real_t MCC()const noexcept {
-				const auto den = (TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
-				return den ? static_cast<real_t>(TP()*TN() - FP()*FN()) / ::std::sqrt(static_cast<real_t>(den))  : real_t(0.);
+				//the products easily exceed vec_len_t range
+				const auto den = static_cast<ext_real_t>(TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
+				return den ? static_cast<real_t>((static_cast<ext_real_t>(TP())*TN() - static_cast<ext_real_t>(FP())*FN()) / ::std::sqrt(den)) : real_t(0.);
 			}
 
 			real_t Jaccard()const noexcept {
-- 
2.43.0


From e5255c71ab8fde39185dca7744cb702c6fa932e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:31 +0000
Subject: [PATCH 16/26] fix: jsonreader reported malformed fields as missing
 ones

---
 nntl/_supp/io/jsonreader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 3ab4373..935a3dc 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -203,8 +203,7 @@ namespace nntl_supp {
 
 		template <typename MembersEnumId>
 		const ErrorCode _members2ErrorCode(const ErrorCode b, const MembersEnumId rm)noexcept {
-			NNTL_UNREF(b);
-			const ErrorCode e = static_cast<ErrorCode>((int)ErrorCode::NoTrainX + (int)rm);
+			const ErrorCode e = static_cast<ErrorCode>((int)b + (int)rm);
 			return _set_last_error(e);
 		}
 
-- 
2.43.0


From 532c3b95225cac614b9df5f47a30070b5fa3b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:31 +0000
Subject: [PATCH 17/26] fix: binfile leaked the conversion buffer of a
 truncated file

---
 nntl/_supp/io/binfile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index cb1ed54..d3cc207 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -393,8 +393,10 @@ namespace nntl_supp {
 
 #pragma warning(disable:28020)
 			//MSVC SAL goes "slightly" mad here
-			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp))
+			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp)) {
+				if (!bSameTypes) free(pReadTo);
 				return _set_last_error(ErrorCode::FailedToReadData);
+			}
 #pragma warning(default:28020)
 
 			if (!bSameTypes) {
-- 
2.43.0


From 1bf488500f2739beedd2d24a173444ece739ea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:20 +0000
Subject: [PATCH 18/26] fix: rng_helper::normal_vector must use the requested
 standard deviation, not the number of elements

---
 nntl/interface/_i_rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..79498a8 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,7 +235,7 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m,st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
 				ptr[i] = distr(*this);
 			}
-- 
2.43.0


From d2b424772ef84f7f1d4117076e68c6be7a060cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:49 +0000
Subject: [PATCH 19/26] fix: a matrix whose allocation failed must neither be
 written to nor reported resized

---
 nntl/interface/math/smatrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 12e90b7..80d7964 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -342,7 +342,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -354,7 +354,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -366,7 +366,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (m_bEmulateBiases) set_biases();
+			if (m_bEmulateBiases && m_pData) set_biases();
 		}
 		
 		//useExternalStorage(value_ptr_t ptr, const smatrix& sizeLikeThis) variation
@@ -1058,7 +1058,7 @@ namespace math {
 				NNTL_ASSERT(!"Wrong row or col count!");
 				return false;
 			}
-			if (r == m_rows && c == m_cols) return true;
+			if (r == m_rows && c == m_cols && m_pData) return true;
 			m_rows = r;
 			m_cols = c;
 			_realloc();
-- 
2.43.0


From afb1716d9ffd3992675797afc691ab9fb32f94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:49 +0000
Subject: [PATCH 20/26] fix: layer_settings::set_default must return a value

---
 nntl/utils/layers_settings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/layers_settings.h b/nntl/utils/layers_settings.h
index bc01183..700e506 100644
--- a/nntl/utils/layers_settings.h
+++ b/nntl/utils/layers_settings.h
@@ -80,6 +80,7 @@ namespace utils {
 			if (!m_keeper.empty())
 				m_keeper.pop_front();
 			m_keeper.push_front(::std::forward<ST>(def));
+			return *this;
 		}
 
 		const setts_t& get(const layer_index_t idx)const noexcept {
-- 
2.43.0


From 751aa7742f4a082d0e19c7ecfee93bc2a1b36a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:49 +0000
Subject: [PATCH 21/26] fix: AFRand_as::init_rng must report a failed
 initialization

---
 nntl/interface/rng/afrand_as.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/rng/afrand_as.h b/nntl/interface/rng/afrand_as.h
index 64bd915..62ae2d2 100644
--- a/nntl/interface/rng/afrand_as.h
+++ b/nntl/interface/rng/afrand_as.h
@@ -497,7 +497,10 @@ namespace rng {
 
 		bool init_rng()noexcept { 
 			const bool b = _base_class_t::init_rng();
-			if (b && !asynch_rng_t::init_rng()) _base_class_t::deinit_rng();
+			if (b && !asynch_rng_t::init_rng()) {
+				_base_class_t::deinit_rng();
+				return false;
+			}
 			return b;
 		}
 		void deinit_rng()noexcept {
-- 
2.43.0


From 5594941b587e58827dde844b1853533fe4888ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 22/26] fix: gradient check with one of the batch sizes equal
 to the data set size must not use an empty batch buffer

---
 nntl/nnet.h             | 6 ++++--
 nntl/utils/dataHolder.h | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index bf099f2..d669767 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -785,8 +785,10 @@ namespace nntl {
 			//////////////////////////////////////////////////////////////////////////
 
 			bool performCheck(const vec_len_t batchSize, const realmtx_t& data_x, const realmtx_t& data_y)noexcept {
-				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(biggestBatch == data_x.batch_size() ? 0 : biggestBatch, data_x, &data_y);
+				//dataHolder wants the biggest batch size that is strictly less than the whole data set (or 0 if there's no such batch)
+				const vec_len_t totalRows = data_x.batch_size();
+				m_data.init(::std::max(batchSize < totalRows ? batchSize : vec_len_t(0)
+					, m_ngcSetts.onlineBatchSize < totalRows ? m_ngcSetts.onlineBatchSize : vec_len_t(0)), data_x, &data_y);
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 83ee29b..aee87e1 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -137,6 +137,7 @@ namespace utils {
 				NNTL_ASSERT(batchSize == m_pDataX->rows());
 				m_pBatchX = m_pDataX;
 				m_pBatchY = m_pDataY;
+				m_next = m_rowsIdxs.cend();//the full batch is always made of all the indexes
 			} else {
 				NNTL_ASSERT(batchSize);
 				NNTL_ASSERT(!m_batchX.empty());
-- 
2.43.0


From 9d39950dd417760ad681c1a8be5ab224751190cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:58 +0000
Subject: [PATCH 23/26] fix: gradient check must fail on a NaN or infinite
 gradient

---
 nntl/nnet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index d669767..ff66682 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -1096,9 +1096,9 @@ namespace nntl {
 					}//yes, this is ugly hack to get rid of underlying layer's kinks
 				} else {
 					const real_t relErr = ::std::abs(dLan - dLnum) / ::std::max(::std::abs(dLan), ::std::abs(dLnum));
-					NNTL_ASSERT(!::std::isnan(relErr) && !::std::isinf(relErr));
 
-					if (relErr > *warnThrsh) {
+					//NaN relative error (of a NaN or infinite gradient) must fail the check too
+					if (!(relErr <= *warnThrsh)) {
 						if (relErr < *failThrsh) {
 							char _s[128];
 							sprintf_s(_s, "Relative error = %g (thrsh %g). Probably not an error.", relErr, *warnThrsh);
-- 
2.43.0


From a57cb2db5c04923bba698ebcf5d97d01322daaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:14 +0000
Subject: [PATCH 24/26] fix: gradient check must not leave its inspector
 watching a layer after the check is over

---
 nntl/interface/inspectors/gradcheck.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/inspectors/gradcheck.h b/nntl/interface/inspectors/gradcheck.h
index 77b0e6a..a9a001a 100644
--- a/nntl/interface/inspectors/gradcheck.h
+++ b/nntl/interface/inspectors/gradcheck.h
@@ -93,7 +93,7 @@ namespace inspector {
 			m_stepSize = ss;
 			m_pChangedEl = nullptr;
 		}
-		void gc_deinit()noexcept{ m_pChangedEl = nullptr; }
+		void gc_deinit()noexcept{ gc_reset(); }
 
 		const auto gc_getCurParamsGroup()const noexcept {
 			return m_checkParamsGroup;
-- 
2.43.0


From 2844a549430bd966ee8fb576f66336743b58b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:10 +0000
Subject: [PATCH 25/26] fix: AlphaDropout: restoring training parameters failed
 or left stale coefficients if the stored dropout state differs

---
 nntl/dropout/alpha_dropout.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nntl/dropout/alpha_dropout.h b/nntl/dropout/alpha_dropout.h
index 2b66d8c..46a9344 100644
--- a/nntl/dropout/alpha_dropout.h
+++ b/nntl/dropout/alpha_dropout.h
@@ -79,14 +79,17 @@ namespace nntl {
 
 		template<class Archive>
 		void _dropout_serialize(Archive & ar, const unsigned int version) noexcept {
+			//must be called first, because it sets (while loading) the dropout probability, that everything else depends on
+			_base_class_t::_dropout_serialize(ar, version);
+
 			if (bDropout()) {
 				if (utils::binary_option<true>(ar, serialization::serialize_training_parameters)) {
+					//the coefficients depend on the dropout probability only, but not all of them are stored
+					if (Archive::is_loading::value) dropoutPercentActive(m_dropoutPercentActive);
 					ar & NNTL_SERIALIZATION_NVP(m_a);
 					ar & NNTL_SERIALIZATION_NVP(m_b);
 				}
 			}
-
-			_base_class_t::_dropout_serialize(ar, version);
 		}
 
 		template<typename CommonDataT>
-- 
2.43.0


From d7da1635526196fd995c16e41503e97ac0813183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 26/26] fix: LPT: loading data stored for another number of
 tiles changed the layer's number of tiles

---
 nntl/layer/pack_tile.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nntl/layer/pack_tile.h b/nntl/layer/pack_tile.h
index 30aa4fc..68c68ce 100644
--- a/nntl/layer/pack_tile.h
+++ b/nntl/layer/pack_tile.h
@@ -431,6 +431,16 @@ namespace nntl {
 		}
 
 	private:
+		template<class Archive> void _serialize_tiles_count(Archive & ar, ::boost::mpl::false_) {
+			ar & NNTL_SERIALIZATION_NVP(m_tiles_count);
+		}
+		//the layer is built for its own number of tiles and can't use data stored for a different one
+		template<class Archive> void _serialize_tiles_count(Archive & ar, ::boost::mpl::true_) {
+			auto tilesCount = m_tiles_count;
+			ar & serialization::make_nvp("m_tiles_count", tilesCount);
+			if (ar.success() && tilesCount != m_tiles_count) ar.mark_invalid_var();
+		}
+
 		//support for ::boost::serialization
 		friend class ::boost::serialization::access;
 		template<class Archive> void serialize(Archive & ar, const unsigned int version) {
@@ -439,7 +449,7 @@ namespace nntl {
 			if (utils::binary_option<true>(ar, serialization::serialize_activations)) ar & NNTL_SERIALIZATION_NVP(m_activations);
 			if (utils::binary_option<true>(ar, serialization::serialize_data_x)) ar & NNTL_SERIALIZATION_NVP(m_innerLowerLayerActivations);
 			
-			ar & NNTL_SERIALIZATION_NVP(m_tiles_count);
+			_serialize_tiles_count(ar, typename Archive::is_loading());
 
 			ar & serialization::make_named_struct(m_tiledLayer.get_layer_name_str().c_str(), m_tiledLayer);
 		}
-- 
2.43.0

