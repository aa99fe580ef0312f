From 4ba74c47946a643ae6668f04caed9fd668c592bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 01/56] fix: dynamic engine waits for the tasks it dispatched
 when a run fails

On an element error the dynamic engine notified its waiter without holding the
mutex (a lost wakeup left run() blocked forever) and run() returned while other
elements were still executing or queued; those executed in a later run, or on a
destroyed engine. Count the dispatched tasks and wait for all of them.
---
 .../GDynamicEngine/GDynamicEngine.cpp         | 85 +++++++------------
 .../_GEngine/GDynamicEngine/GDynamicEngine.h  |  9 +-
 2 files changed, 40 insertions(+), 54 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index 5bf8a5b..31cdc42 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -54,7 +54,7 @@ CVoid GDynamicEngine::commonRunAll() {
      * 2. 在element执行完成之后，进行裂变，直到所有的element执行完成
      * 3. 等待异步执行结束
      */
-    finished_end_size_.store(0, std::memory_order_release);
+    running_size_.store(0, std::memory_order_release);
     for (auto* element : front_element_arr_) {
         process(element, element == front_element_arr_.back());
     }
@@ -130,8 +130,10 @@ CVoid GDynamicEngine::process(GElementPtr element, const CBool affinity) {
         // 如果 affinity=true，表示用当前的线程，执行这个逻辑。以便增加亲和性
         innerExec(element);
     } else {
+        running_size_.fetch_add(1, std::memory_order_acq_rel);
         thread_pool_->execute([this, element] {
-            this->innerExec(element); }, element->binding_index_);
+            this->innerExec(element);
+            this->finishOne(); }, element->binding_index_);
     }
 }
 
@@ -142,12 +144,9 @@ CVoid GDynamicEngine::innerExec(GElementPtr element) {
     if (likely(curStatus.isNotErr())) {
         afterElementRun(element);
     } else {
-        // 遇到异常情况，结束整体逻辑
-        {
-            CGRAPH_LOCK_GUARD lk(status_lock_);
-            cur_status_ += curStatus;
-        }
-        locker_.cv_.notify_one();
+        // 遇到异常情况，后续的element不再执行。已经派发出去的任务结束后，结束整体逻辑
+        CGRAPH_LOCK_GUARD lk(status_lock_);
+        cur_status_ += curStatus;
     }
 }
 
@@ -184,50 +183,53 @@ CVoid GDynamicEngine::afterElementRun(GElementPtr element) {
             }
             break;
         case internal::GElementShape::TAIL:
-            {
-                const auto curEndSize = finished_end_size_.fetch_add(1, std::memory_order_acq_rel) + 1;
-                if (curEndSize == total_end_size_) {
-                    CGRAPH_LOCK_GUARD lock(locker_.mtx_);
-                    locker_.cv_.notify_one();
-                }
-            }
             break;
         default:
             {
                 CGRAPH_LOCK_GUARD lk(status_lock_);
                 cur_status_.setErrorInfo("element shape type error");
             }
-            locker_.cv_.notify_one();
             break;
     }
 }
 
 
+CVoid GDynamicEngine::finishOne() {
+    CSize cur = running_size_.load(std::memory_order_acquire);
+    while (cur > 1) {
+        if (running_size_.compare_exchange_weak(cur, cur - 1, std::memory_order_acq_rel)) {
+            return;
+        }
+    }
+
+    // 最后一个结束的，在持有锁的情况下递减，确保唤醒之后，不再访问 engine 的内容
+    CGRAPH_LOCK_GUARD lock(locker_.mtx_);
+    if (1 == running_size_.fetch_sub(1, std::memory_order_acq_rel)) {
+        locker_.cv_.notify_one();
+    }
+}
+
+
 CVoid GDynamicEngine::fatWait() {
     const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
-    for (CInt i = 0; i < epoch; i++) {
+    for (CInt i = 0; i < epoch && running_size_.load(std::memory_order_acquire) > 0; i++) {
         // 对于 pipeline 运行耗时很短的情况，在 进入 cv.wait() 之前，轮询等到一会
-        // 如果遇到 isErr() 的情况，还是走进入 mutex 的逻辑
-        if (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) {
-            return;
-        }
         CGRAPH_YIELD();
     }
 
     CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
     locker_.cv_.wait(lock, [this] {
         /**
-         * 遇到以下条件之一，结束执行：
-         * 1，执行结束
-         * 2，状态异常
+         * 所有派发出去的任务均结束，才结束执行。
+         * 出现异常的时候，也需要等待正在执行的任务结束，避免影响后续的逻辑
          */
-        return (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) || cur_status_.isErr();
+        return 0 == running_size_.load(std::memory_order_acquire);
     });
 }
 
 
 CVoid GDynamicEngine::parallelRunAll() {
-    parallel_run_num_ = 0;
+    running_size_.store(total_end_size_, std::memory_order_release);
     const CIndex& totalSize = static_cast<CIndex>(parallel_element_matrix_.size());
     for (CIndex i = 0; i < totalSize; i++) {
         auto& curArr = parallel_element_matrix_[i];
@@ -250,41 +252,20 @@ CVoid GDynamicEngine::parallelRunAll() {
         (void)thread_pool_->wakeupAllThread();
     }
 
-    const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
-    for (CInt i = 0; i < epoch; i++) {
-        if (parallel_run_num_ >= total_end_size_) {
-            return;
-        }
-        CGRAPH_YIELD();
-    }
-
-    {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.wait(lock, [this] {
-            return (parallel_run_num_ >= total_end_size_ || cur_status_.isErr());
-        });
-    }
+    fatWait();
 }
 
 
 CVoid GDynamicEngine::parallelRunOne(GElementPtr element) {
-    if (unlikely(cur_status_.isErr())) {
-        return;
-    }
-
-    const auto& status = element->fatProcessor(CFunctionType::RUN);
-    if (unlikely(status.isErr())) {
-        {
+    if (likely(!cur_status_.isErr())) {
+        const auto& status = element->fatProcessor(CFunctionType::RUN);
+        if (unlikely(status.isErr())) {
             CGRAPH_LOCK_GUARD lk(status_lock_);
             cur_status_ += status;
         }
     }
 
-    const auto finishedSize = parallel_run_num_.fetch_add(1, std::memory_order_release) + 1;
-    if (finishedSize >= total_end_size_ || cur_status_.isErr()) {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.notify_one();
-    }
+    finishOne();
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index 92dd02d..995e872 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -71,6 +71,12 @@ protected:
      */
     CVoid afterElementRun(GElementPtr element);
 
+    /**
+     * 记录一个派发到线程池中的任务结束，全部结束的时候，唤醒等待的线程
+     * @return
+     */
+    CVoid finishOne();
+
     /**
      * 动态图运行等待
      * @param
@@ -107,9 +113,8 @@ private:
     GElementPtrArr total_element_arr_ {};                                                // pipeline中所有的元素信息集合
     GElementPtrArr front_element_arr_ {};                                                // 没有依赖的元素信息
     CSize total_end_size_ = 0;                                                           // 图结束节点数量
-    std::atomic<CSize> finished_end_size_ {0};                                        // 执行结束节点数量
+    std::atomic<CSize> running_size_ {0};                                             // 已派发到线程池中，且尚未结束的任务数量
     CStatus cur_status_ {};                                                              // 当前全局的状态信息
-    std::atomic<CSize> parallel_run_num_ {0};                                         // 纯并行时，执行的个数信息
     GElementPtrMat2D parallel_element_matrix_ {};                                        // 纯并行时，记录分解后的数据
     internal::GEngineDagType dag_type_ = { internal::GEngineDagType::COMMON };           // 当前元素的排布形式
 
-- 
2.43.0


From 378ccf4bb1e8d03a58619609f97f3292ebabf8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 02/56] fix: honour levels that are set after registration

---
 src/GraphCtrl/GraphElement/GElementManager.cpp        | 9 +++++++++
 src/GraphCtrl/GraphElement/GElementManager.h          | 6 ++++++
 src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp | 2 +-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 34a49bb..bc1b031 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -27,6 +27,7 @@ CStatus GElementManager::init() {
         CGRAPH_ASSERT_NOT_NULL(element)
     }
 
+    resort();
     status = initEngine();
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -130,6 +131,7 @@ GElementManagerPtr GElementManager::setThreadPool(UThreadPoolPtr ptr) {
 
 
 CSize GElementManager::calcMaxParaSize() {
+    resort();
     CGRAPH_THROW_EXCEPTION_BY_CONDITION(!GMaxParaOptimizer::match(manager_elements_),
                                         "cannot calculate max parallel size within groups")
     return GMaxParaOptimizer::getMaxParaSize(manager_elements_);
@@ -170,10 +172,17 @@ CBool GElementManager::checkSerializable() {
 
 
 CSize GElementManager::trim() {
+    resort();
     return GTrimOptimizer::trim(manager_elements_);
 }
 
 
+CVoid GElementManager::resort() {
+    // element 的 level 信息，可能在加入集合之后被修改，故使用前需要重新排序
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
+}
+
+
 CStatus GElementManager::process(const GSortedGElementPtrSet& elements) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(engine_)
diff --git a/src/GraphCtrl/GraphElement/GElementManager.h b/src/GraphCtrl/GraphElement/GElementManager.h
index 1ded97a..7e22a44 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.h
+++ b/src/GraphCtrl/GraphElement/GElementManager.h
@@ -91,6 +91,12 @@ protected:
      */
     CSize trim();
 
+    /**
+     * 根据当前的 level 信息，重新排序
+     * @return
+     */
+    CVoid resort();
+
     /**
      * 加入数据，并且执行
      * @param elements
diff --git a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
index 32a4a30..3f15a94 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
@@ -118,7 +118,7 @@ CSize GRegion::trim() {
     CGRAPH_ASSERT_INIT_THROW_ERROR(false)
     CSize result = 0;
     if (manager_) {
-        result = GTrimOptimizer::trim(manager_->manager_elements_);
+        result = manager_->trim();
     }
     return result;
 }
-- 
2.43.0


From c136b3cb07f1e32ab4c963dfcd3b92a5bb67c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:48 +0000
Subject: [PATCH 03/56] fix: parallel multi condition leaves no task behind
 when isMatch throws

---
 .../GraphElement/GGroup/GCondition/GMultiCondition.inl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
index 3c32bbd..a4c90c5 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
+++ b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
@@ -62,12 +62,16 @@ CStatus GMultiCondition<type>::serialRun() {
 template<GMultiConditionType type>
 CStatus GMultiCondition<type>::parallelRun() {
     CGRAPH_FUNCTION_BEGIN
-    std::vector<std::future<CStatus> > futures;
+    // 先确认全部满足条件的 element（不满足的，则不执行），避免 isMatch() 异常的时候，已经有任务被派发出去且无人等待
+    GElementPtrArr matched;
     for (auto* cur : this->children_) {
-        if (!cur->isMatch()) {
-            continue;    // 不满足条件，则不执行
+        if (cur->isMatch()) {
+            matched.emplace_back(cur);
         }
+    }
 
+    std::vector<std::future<CStatus> > futures;
+    for (auto* cur : matched) {
         futures.emplace_back(std::move(this->thread_pool_->commit([cur] {
             return cur->fatProcessor(CFunctionType::RUN);
         }, cur->binding_index_)));
-- 
2.43.0


From a3a250c89177557d6fc359ab7e9224b4677c20bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 04/56] fix: GSome waits for the members left over by a run or
 an iteration

---
 .../GraphElement/GElementRepository.cpp       |  8 +++++
 .../GraphElement/GElementRepository.h         |  4 +++
 .../GraphElement/GGroup/GSome/GSome.cpp       | 31 +++++++++++++++++--
 .../GraphElement/GGroup/GSome/GSome.h         | 10 ++++++
 4 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 40fc749..bdeb3db 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -43,6 +43,10 @@ CStatus GElementRepository::setup() {
 
 CStatus GElementRepository::reset() {
     CGRAPH_FUNCTION_BEGIN
+    for (auto* cur : some_elements_) {
+        status += cur->waitRest();
+    }
+
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
@@ -115,6 +119,7 @@ CBool GElementRepository::isCancelState() const {
 CStatus GElementRepository::init() {
     CGRAPH_FUNCTION_BEGIN
     async_elements_.clear();    // 每次记得清空这里。因为每次init之后，都可能不一样
+    some_elements_.clear();
     for (auto& element : elements_) {
         /**
          * 1. 查验element是否为空
@@ -129,6 +134,9 @@ CStatus GElementRepository::init() {
         if (element->isAsync()) {
             async_elements_.emplace(element);
         }
+        if (GElementType::SOME == element->element_type_) {
+            some_elements_.emplace(dynamic_cast<GSome *>(element));
+        }
     }
 
     // 每次初始化之后，所有的状态，都可以恢复了
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 1b6cf17..3799d86 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -15,6 +15,8 @@
 
 CGRAPH_NAMESPACE_BEGIN
 
+class GSome;
+
 class GElementRepository : public GElementObject {
 private:
     /**
@@ -92,6 +94,8 @@ private:
     GElementState cur_state_ { GElementState::NORMAL };             // 当前状态信息
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
 
+    std::set<GSome *> some_elements_ {};                            // 所有的 GSome 信息，执行结束的时候，等待其中剩余的 element
+
     friend class GPipeline;
     friend class GPerf;
     friend class GStorage;
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
index a39d284..fca9376 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
@@ -39,11 +39,16 @@ CStatus GSome::addElementEx(GElementPtr element) {
 
 CStatus GSome::run()  {
     CGRAPH_FUNCTION_BEGIN
+    status = waitRest();    // 处于循环中的情况下，上一轮未结束的 element，不应影响这一轮
+    CGRAPH_FUNCTION_CHECK_STATUS
 
     wait_num_ = static_cast<CInt>(getWaitNum());
     CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(wait_num_ > children_.size(),
         "num is bigger than elements size.");
-    cur_status_.reset();
+    rest_num_ = children_.size();
+    for (auto* element : children_) {
+        element->done_ = false;
+    }
 
     /**
      * 1. 并发的执行，其中的所有逻辑信息
@@ -57,8 +62,11 @@ CStatus GSome::run()  {
                 const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
                 CGRAPH_UNIQUE_LOCK lock(lock_);
                 cur_status_ += curStatus;
-                if (--wait_num_ <= 0 || cur_status_.isErr()) {
-                    cv_.notify_one();
+                element->done_ = true;
+                wait_num_--;
+                rest_num_--;
+                if (wait_num_ <= 0 || cur_status_.isErr() || 0 == rest_num_) {
+                    cv_.notify_all();
                 }
             }
         }, binding_index_);
@@ -79,6 +87,23 @@ CStatus GSome::run()  {
 }
 
 
+CStatus GSome::waitRest() {
+    CGRAPH_FUNCTION_BEGIN
+    CGRAPH_UNIQUE_LOCK lock(lock_);
+    cv_.wait(lock, [this] {
+        return 0 == rest_num_;
+    });
+
+    for (auto* element : children_) {
+        auto timeout = GElementState::TIMEOUT;
+        element->cur_state_.compare_exchange_strong(timeout, GElementState::NORMAL);
+    }
+    status = cur_status_;
+    cur_status_.reset();
+    CGRAPH_FUNCTION_END
+}
+
+
 CBool GSome::isSerializable() const {
     return false;    // 情况较为复杂，默认不可以
 }
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
index f8c8b0b..f3b55be 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
@@ -42,14 +42,24 @@ protected:
 
     CStatus addElementEx(GElementPtr element) override;
 
+private:
+    /**
+     * 等待所有已经派发出去的 element 结束，并且恢复其状态
+     * @return
+     * @notice 在 pipeline 的单次 run() 结束之前，或者当前 group 再次执行之前调用
+     */
+    CStatus waitRest();
+
 private:
     CInt wait_num_ {0};                        // 还剩的触发结束的个数
+    CSize rest_num_ {0};                       // 已经派发，但是没有结束的个数
     CStatus cur_status_ ;                      // 记录异步时刻的当前状态信息
 
     std::mutex lock_;
     std::condition_variable cv_;
 
     friend class GPipeline;
+    friend class GElementRepository;
     friend class GDynamicEngine;
     friend class CAllocator;
     friend class GStorageFactory;
-- 
2.43.0


From ddcf53abee782ffc5b839e714a2edb243c1bee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 05/56] fix: wait for asynchronous work before an exception
 leaves run()

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 17 +++++++++++++++--
 src/GraphCtrl/GraphPipeline/GPipeline.h   |  7 +++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 39f97ed..cf2793a 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -69,11 +69,24 @@ CStatus GPipeline::run() {
     status += param_manager_->setup();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status = element_manager_->run();
+    try {
+        status = element_manager_->run();
+    } catch (const CException& ex) {
+        // 异常的情况下，也需要等待所有异步逻辑执行结束，再继续抛出
+        status = CStatus(internal::STATUS_CRASH, ex.what());
+        finishRun(status);
+        throw;
+    }
+
+    finishRun(status);
+    CGRAPH_FUNCTION_END
+}
+
+
+CVoid GPipeline::finishRun(CStatus& status) {
     status += repository_.reset();    // 等异步的逻辑执行，并且获取异步执行的结果信息
     status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束
     param_manager_->resetWithStatus(status);
-    CGRAPH_FUNCTION_END
 }
 
 
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index 494b9c2..9ceb82a 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -426,6 +426,13 @@ private:
      */
     CStatus initEnv();
 
+    /**
+     * 单次 run() 的收尾，等待异步逻辑结束，并且复原参数
+     * @param status
+     * @return
+     */
+    CVoid finishRun(CStatus& status);
+
     /**
      * 内部真实一个 element 信息
      * @param element
-- 
2.43.0


From ccae0003843efd1aab0b521a10a5736257005db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 06/56] fix: a mutable group whose reshape describes a cycle
 executes nothing

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index bc1b031..a3e1b40 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -189,6 +189,7 @@ CStatus GElementManager::process(const GSortedGElementPtrSet& elements) {
 
     // 主要是给 mutable 使用
     status += engine_->setup(elements);
+    CGRAPH_FUNCTION_CHECK_STATUS    // 设定失败的情况下（比如存在环），不可以执行
     status += run();
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From 74b120cc18d630e467362c311eb4a0fc9f9f24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 07/56] fix: wake a waiting thread for every task put into the
 shared queue

Tasks of elements with a time limit, events and out of range indexes were pushed without waking
anybody, and a wakeup could fall between the check and the wait of a thread: the task then only
started when the sleep interval (1s) of some thread expired, although threads were idle.
---
 src/UtilsCtrl/ThreadPool/Thread/UThreadBase.h |  1 +
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      | 17 +++++------------
 src/UtilsCtrl/ThreadPool/UThreadPool.inl      |  6 +++---
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadBase.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadBase.h
index 6b14b52..3f82183 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadBase.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadBase.h
@@ -124,6 +124,7 @@ protected:
      */
     CBool wakeup() {
         CBool result = false;
+        CGRAPH_LOCK_GUARD lk(mutex_);    // 跟等待方使用同一把锁，确保通知不会落在"检查条件"和"进入等待"之间
         if (!is_running_.load(std::memory_order_relaxed)) {
             cv_.notify_one();
             result = true;
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 3233d75..6ad4d2b 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -274,21 +274,14 @@ CVoid UThreadPool::monitor() {
 
 CSize UThreadPool::wakeupAllThread() {
     CSize size = 0;
-    if (wakeup_mutex_.try_lock()) {
-        for (auto* pt : primary_threads_) {
-            if (pt->wakeup()) {
-                ++size;
-            }
+    CGRAPH_LOCK_GUARD lock(wakeup_mutex_);
+    for (auto* pt : primary_threads_) {
+        if (pt->wakeup()) {
+            ++size;
         }
-
-        for (const auto& st : secondary_threads_) {
-            if (st->wakeup()) {
-                ++size;
-            }
-        }
-        wakeup_mutex_.unlock();
     }
 
+    // 辅助线程等待在 task_queue_ 上，写入任务的时候即会被唤醒，无需在这里通知
     return size;
 }
 
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 850b6f8..841cd1a 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -62,11 +62,10 @@ CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
         primary_threads_[realIndex]->pushTask(std::forward<FunctionType>(task));
     } else if (CGRAPH_LONG_TIME_TASK_STRATEGY == realIndex) {
         priority_task_queue_.push(std::forward<FunctionType>(task), CGRAPH_LONG_TIME_TASK_STRATEGY);
-    } else if (CGRAPH_TRIGGER_ALL_THREAD_STRATEGY == realIndex) {
-        task_queue_.push(std::forward<FunctionType>(task));
-        (void)wakeupAllThread();
     } else {
+        // 写入 pool 通用的任务队列后，需要唤醒等待中的线程，避免任务只能等到线程休眠超时之后才被执行
         task_queue_.push(std::forward<FunctionType>(task));
+        (void)wakeupAllThread();
     }
 }
 
@@ -78,6 +77,7 @@ CVoid UThreadPool::executeWithTid(FunctionType&& task, CIndex tid, CBool enable,
     } else {
         // 如果超出主线程的范围，则默认写入 pool 通用的任务队列中
         task_queue_.push(std::forward<FunctionType>(task));
+        (void)wakeupAllThread();
     }
 }
 
-- 
2.43.0


From 669d30fcb6daf80eecf616d931de8053400ecc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 08/56] fix: asynchronous results can be read by several
 fences, and late exceptions do not escape the reset

Two fences for one element raced on one std::future (undefined behaviour, or a future error that
ends the program); an element that throws after its time limit left the waits and state resets of
the other elements undone, so that they were skipped silently in the next run.
---
 src/GraphCtrl/GraphElement/GElement.cpp           | 9 ++++++---
 src/GraphCtrl/GraphElement/GElement.h             | 2 +-
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 9 ++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index cb35007..ae7a65e 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -542,7 +542,9 @@ CStatus GElement::asyncRun() {
 
     const auto& futStatus = async_result_.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
-        status = getAsyncResult();
+        // 未超时，结果在这里被取走
+        const auto result = std::move(async_result_);
+        status = result.get();
     } else {
         doAspect(internal::GAspectType::ENTER_TIMEOUT);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION( GElementTimeoutStrategy::AS_ERROR == timeout_strategy_,    \
@@ -556,8 +558,9 @@ CStatus GElement::asyncRun() {
 
 CStatus GElement::getAsyncResult() {
     CGRAPH_FUNCTION_BEGIN
-    if (async_result_.valid()) {
-        status = async_result_.get();    // 这里的get和valid方法，都是线程安全的
+    const auto result = async_result_;    // 可能有多个 fence 同时获取，故使用各自的拷贝
+    if (result.valid()) {
+        status = result.get();
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 1741d1a..bedabc4 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -469,7 +469,7 @@ private:
     std::vector<GElement *> children_ {};                                     // 子节点，适用于group类型
 
     /** 异步执行相关信息 */
-    std::future<CStatus> async_result_;                                       // 用于记录当前节点的异步执行情况
+    std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
     friend class GNode;
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index bdeb3db..57ad1f0 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -50,8 +50,15 @@ CStatus GElementRepository::reset() {
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
-            status += cur->getAsyncResult();
+            try {
+                status += cur->getAsyncResult();
+            } catch (const CException& ex) {
+                // 超时之后抛出的异常，不能影响其他 element 的等待和状态恢复
+                (void)cur->doAspect(internal::GAspectType::ENTER_CRASHED);
+                status += cur->crashed(ex);
+            }
         }
+        cur->async_result_ = std::shared_future<CStatus>();
 
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
         if (cur->isTimeout()) {
-- 
2.43.0


From 0c4ae5d6e1e31567ab319c6db969fe52c9fec204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:11 +0000
Subject: [PATCH 09/56] fix: the limit on secondary threads also holds for
 concurrent callers

createSecondaryThread computed how many threads may be added before it took the lock.
---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 6ad4d2b..7a5c272 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -227,10 +227,10 @@ CIndex UThreadPool::dispatch(const CIndex origIndex) {
 CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
     const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
-    CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (int i = 0; i < realSize; i++) {
         auto ptr = CGRAPH_MAKE_UNIQUE_COBJECT(UThreadSecondary)
         ptr->setThreadPoolInfo(&task_queue_, &priority_task_queue_, &config_);
-- 
2.43.0


From 2863fc90749df966abde492a2ebb40f37636febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 10/56] fix: elements follow one state of the pipeline, and
 suspend() loses no execution

An element that started while the pipeline was suspended was skipped (and run() reported success),
a resume could be missed by a waiting element, and cancel() reached the elements one by one, so that
an element could run although the one it depends on had already been skipped. Holding elements also
went on after a cancel.
---
 src/GraphCtrl/GraphElement/GElement.cpp       | 27 ++++++++++++++-----
 src/GraphCtrl/GraphElement/GElement.h         |  7 +++++
 .../GraphElement/GElementRepository.cpp       | 25 +++++++++--------
 .../GraphElement/GElementRepository.h         |  6 ++++-
 4 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index ae7a65e..f2212e6 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -239,7 +239,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                     is_prepared_ = true;
                 }
 
-                for (CSize i = 0; i < this->loop_ && status.isOK() && GElementState::NORMAL == this->getCurState(); i++) {
+                for (CSize i = 0; i < this->loop_ && status.isOK() && checkRunnable(); i++) {
                     /** 执行带切面的run方法 */
                     status += doAspect(internal::GAspectType::BEGIN_RUN);
                     CGRAPH_FUNCTION_CHECK_STATUS
@@ -251,7 +251,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                          * 默认所有element的isHold条件均为false，即不hold，即执行一次
                          * 可以根据需求，对任意element类型，添加特定的isHold条件
                          * */
-                    } while (checkSuspend(), isHold() && status.isOK());
+                    } while (checkSuspend(), isHold() && status.isOK() && checkRunnable());
                     (void)doAspect(internal::GAspectType::FINISH_RUN, status);
                 }
 
@@ -439,17 +439,28 @@ CVoid GElement::dumpPerfInfo(std::ostream& oss) const {
 
 
 CVoid GElement::checkSuspend() {
-    if (GElementState::SUSPEND != cur_state_.load(std::memory_order_acquire)) {
+    if (!pipeline_state_ || GElementState::SUSPEND != pipeline_state_->load(std::memory_order_acquire)) {
         return;
     }
 
     std::unique_lock<std::mutex> lk(suspend_locker_.mtx_);
     this->suspend_locker_.cv_.wait(lk, [this] {
-        return GElementState::SUSPEND != cur_state_.load(std::memory_order_acquire);
+        return GElementState::SUSPEND != pipeline_state_->load(std::memory_order_acquire);
     });
 }
 
 
+CBool GElement::checkRunnable() {
+    auto state = getCurState();
+    while (GElementState::SUSPEND == state) {
+        // 暂停期间开始的 element，需要等到恢复之后再执行，而不是被跳过
+        checkSuspend();
+        state = getCurState();
+    }
+    return GElementState::NORMAL == state;
+}
+
+
 CBool GElement::isGGroup() const {
     // 按位与 GROUP有值，表示是 GROUP的逻辑
     return (static_cast<long>(element_type_) & static_cast<long>(GElementType::GROUP)) > 0;
@@ -469,10 +480,12 @@ CBool GElement::isGNode() const {
 GElementState GElement::getCurState() const {
     /**
      * 如果有超时逻辑的话，优先判断
-     * 否则就是当前的状态
+     * 否则就是当前 pipeline 的状态
      */
-    auto state = this->isTimeout() ? GElementState::TIMEOUT : cur_state_.load(std::memory_order_acquire);
-    return state;
+    if (this->isTimeout()) {
+        return GElementState::TIMEOUT;
+    }
+    return pipeline_state_ ? pipeline_state_->load(std::memory_order_acquire) : GElementState::NORMAL;
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index bedabc4..5e386eb 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -387,6 +387,12 @@ private:
      */
     CVoid checkSuspend();
 
+    /**
+     * 判断是否可以（继续）执行。如果处于 suspend 状态，则等待恢复之后再判断
+     * @return
+     */
+    CBool checkRunnable();
+
     /**
      * 判断当前元素，是否可以线性执行。默认返回true
      * @return
@@ -470,6 +476,7 @@ private:
 
     /** 异步执行相关信息 */
     std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
+    const std::atomic<GElementState>* pipeline_state_ { nullptr };            // 所属 pipeline 的执行状态，所有 element 共用
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
     friend class GNode;
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 57ad1f0..9aea502 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -72,18 +72,21 @@ CStatus GElementRepository::reset() {
 
 CStatus GElementRepository::pushAllState(const GElementState& state) {
     CGRAPH_FUNCTION_BEGIN
-    if (cur_state_ == state) {
+    CGRAPH_LOCK_GUARD lock(state_lock_);
+    if (cur_state_.load(std::memory_order_acquire) == state) {
         return status;    // 避免重复赋值
     }
 
-    for (auto& cur : elements_) {
-        cur->cur_state_.store(state, std::memory_order_release);
-        if (GElementState::SUSPEND != state) {
-            // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
-            cur->suspend_locker_.cv_.notify_one();
+    // 所有的 element 共用这一个状态，故不会出现部分 element 已经切换，部分尚未切换的情况
+    cur_state_.store(state, std::memory_order_release);
+    if (GElementState::SUSPEND != state) {
+        // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
+        for (auto& cur : elements_) {
+            // 加锁，确保通知不会落在"检查状态"和"进入等待"之间
+            CGRAPH_LOCK_GUARD lk(cur->suspend_locker_.mtx_);
+            cur->suspend_locker_.cv_.notify_all();
         }
     }
-    cur_state_ = state;    // 记录当前的状态信息
     CGRAPH_FUNCTION_END
 }
 
@@ -114,12 +117,7 @@ CVoid GElementRepository::fetch(GElementPtr element) {
 
 
 CBool GElementRepository::isCancelState() const {
-    /**
-     * 因为每次执行的时候，都需要判断一下这个状态是否为 cancel
-     * 且理论上不会出现多线程问题
-     * 故这一层的 cur_state_ 就不设置为atomic类型的了
-     */
-    return GElementState::CANCEL == cur_state_;
+    return GElementState::CANCEL == cur_state_.load(std::memory_order_acquire);
 }
 
 
@@ -137,6 +135,7 @@ CStatus GElementRepository::init() {
         status = element->checkSuitable();
         CGRAPH_FUNCTION_CHECK_STATUS
         element->updateAspectInfo();
+        element->pipeline_state_ = &cur_state_;
 
         if (element->isAsync()) {
             async_elements_.emplace(element);
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 3799d86..416cb51 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -9,6 +9,9 @@
 #ifndef CGRAPH_GELEMENTREPOSITORY_H
 #define CGRAPH_GELEMENTREPOSITORY_H
 
+#include <atomic>
+#include <mutex>
+
 #include "GElementObject.h"
 #include "GElement.h"
 #include "GElementManager.h"
@@ -91,7 +94,8 @@ private:
 
 private:
     GElementPtrSet elements_ {};                                    // 用于记录所有的element信息
-    GElementState cur_state_ { GElementState::NORMAL };             // 当前状态信息
+    std::atomic<GElementState> cur_state_ { GElementState::NORMAL };    // 当前状态信息，所有的 element 均以此为准
+    std::mutex state_lock_ {};                                      // 避免多个线程同时修改状态
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
 
     std::set<GSome *> some_elements_ {};                            // 所有的 GSome 信息，执行结束的时候，等待其中剩余的 element
-- 
2.43.0


From ba8e420f03b6621fcf99110fef4b409f0bf7e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 11/56] fix: cancel() is not undone by resume() or by the next
 run of process()

A cancel or suspend between two runs of process() was reset by the next run, and a resume() after
cancel() let the elements that were not reached yet execute without those they depend on.
---
 .../GraphElement/GElementRepository.cpp       |  5 +--
 .../GraphElement/GElementRepository.h         |  3 +-
 src/GraphCtrl/GraphPipeline/GPipeline.cpp     | 31 ++++++++++++-------
 src/GraphCtrl/GraphPipeline/GPipeline.h       |  6 ++++
 4 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 9aea502..12b0b3c 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -70,10 +70,11 @@ CStatus GElementRepository::reset() {
 }
 
 
-CStatus GElementRepository::pushAllState(const GElementState& state) {
+CStatus GElementRepository::pushAllState(const GElementState& state, const CBool force) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_LOCK_GUARD lock(state_lock_);
-    if (cur_state_.load(std::memory_order_acquire) == state) {
+    const auto curState = cur_state_.load(std::memory_order_acquire);
+    if (curState == state || (!force && GElementState::CANCEL == curState)) {
         return status;    // 避免重复赋值
     }
 
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 416cb51..6cbbb08 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -59,9 +59,10 @@ private:
     /**
      * 设置所有内部的element状态
      * @param state
+     * @param force 为 false 的情况下，如果已经被 cancel，则保持 cancel 状态，不再切换
      * @return
      */
-    CStatus pushAllState(const GElementState& state);
+    CStatus pushAllState(const GElementState& state, CBool force = true);
 
     /**
      * 将 element manager 中的信息，同步到本地
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index cf2793a..5715044 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -57,15 +57,24 @@ CStatus GPipeline::run() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_INIT(true)
 
+    // 将所有 GElement 的状态设定为 NORMAL
+    status += repository_.setup();
+    CGRAPH_FUNCTION_CHECK_STATUS
+
+    status = runOnce();
+    CGRAPH_FUNCTION_END
+}
+
+
+CStatus GPipeline::runOnce() {
+    CGRAPH_FUNCTION_BEGIN
     /**
-     * 1. 将所有 GElement 的状态设定为 NORMAL
-     * 2. 将所有的 GParam 设置为初始值
-     * 3. 执行dag逻辑
-     * 4. 将所有 GElement 的状态恢复为 NORMAL
-     * 5. 等到所有异步事件执行结束
-     * 6. 将所有的 GParam 复原
+     * 1. 将所有的 GParam 设置为初始值
+     * 2. 执行dag逻辑
+     * 3. 将所有 GElement 的状态恢复为 NORMAL
+     * 4. 等到所有异步事件执行结束
+     * 5. 将所有的 GParam 复原
      */
-    status += repository_.setup();
     status += param_manager_->setup();
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -127,9 +136,9 @@ CStatus GPipeline::process(CSize runTimes) {
         /**
          * 1. 执行轮数（runTimes）没有结束
          * 2. 执行结果正常
-         * 3. 没有进入取消状态
+         * 3. 没有进入取消状态（两轮执行之间的 cancel 和 suspend，也不能被重置）
          */
-        status += run();
+        status += runOnce();
     }
 
     status += destroy();
@@ -199,14 +208,14 @@ CStatus GPipeline::cancel() {
 
 CStatus GPipeline::suspend() {
     CGRAPH_ASSERT_INIT(true)
-    return repository_.pushAllState(GElementState::SUSPEND);
+    return repository_.pushAllState(GElementState::SUSPEND, false);
 }
 
 
 CStatus GPipeline::resume() {
     // 直接恢复正常状态好了
     CGRAPH_ASSERT_INIT(true)
-    return repository_.pushAllState(GElementState::NORMAL);
+    return repository_.pushAllState(GElementState::NORMAL, false);
 }
 
 
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index 9ceb82a..cf936b6 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -426,6 +426,12 @@ private:
      */
     CStatus initEnv();
 
+    /**
+     * 执行一次，不改变当前的（NORMAL，SUSPEND 或 CANCEL）状态
+     * @return
+     */
+    CStatus runOnce();
+
     /**
      * 单次 run() 的收尾，等待异步逻辑结束，并且复原参数
      * @param status
-- 
2.43.0


From 4696bf972154379ac1c434583a89a7df02fcb3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 12/56] fix: parameters can be looked up while another thread
 creates or removes one

The lookup read the table without its lock, and the record of the parameters an object used was
changed by several threads when an event is triggered concurrently; it also kept pointers to
parameters that had been removed.
---
 src/GraphCtrl/GraphParam/GParamManager.cpp      |  1 +
 src/GraphCtrl/GraphParam/GParamManager.inl      |  1 +
 src/GraphCtrl/GraphParam/GParamManagerWrapper.h | 15 +++++++++++----
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManager.cpp b/src/GraphCtrl/GraphParam/GParamManager.cpp
index 51442d8..4cc087f 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.cpp
+++ b/src/GraphCtrl/GraphParam/GParamManager.cpp
@@ -114,6 +114,7 @@ CStatus GParamManager::__create_4py(GParamPtr param, const std::string& key) {
 
 
 GParamPtr GParamManager::__get_4py(const std::string& key) {
+    CGRAPH_LOCK_GUARD lock(this->mutex_);
     const auto& iter = params_map_.find(key);
     if (iter == params_map_.end()) {
         return nullptr;
diff --git a/src/GraphCtrl/GraphParam/GParamManager.inl b/src/GraphCtrl/GraphParam/GParamManager.inl
index 09b2026..1871794 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.inl
+++ b/src/GraphCtrl/GraphParam/GParamManager.inl
@@ -39,6 +39,7 @@ CStatus GParamManager::create(const std::string& key, CBool backtrace) {
 template<typename T,
         c_enable_if_t<std::is_base_of<GParam, T>::value, int>>
 T* GParamManager::get(const std::string& key) {
+    CGRAPH_LOCK_GUARD lock(this->mutex_);    // 其他线程，可能正在创建或者删除
     const auto& iter = params_map_.find(key);
     if (iter == params_map_.end()) {
         return nullptr;
diff --git a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
index 6e1a69f..4853137 100644
--- a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
+++ b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
@@ -11,6 +11,8 @@
 
 #include <string>
 #include <vector>
+#include <set>
+#include <mutex>
 
 #include "GParam.h"
 #include "GParamManager.h"
@@ -44,7 +46,10 @@ CGRAPH_NAMESPACE_BEGIN
         CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(param_manager_)                              \
         auto param = param_manager_->get<TGParam>(key);                                 \
         if (nullptr != param) {                                                         \
-            concerned_params_.insert(param);                                            \
+            {   /* event 等对象，可能同时被多个线程触发 */                                             \
+                CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                         \
+                concerned_params_.insert(key);                                          \
+            }                                                                           \
             param->addBacktrace(name_.empty() ? session_ : name_);                      \
         }                                                                               \
         return param;                                                                   \
@@ -91,8 +96,9 @@ CGRAPH_NAMESPACE_BEGIN
      */                                                                                 \
     std::vector<std::string> getConcernedGParamKeys() const {                           \
         std::vector<std::string> keys;                                                  \
-        for (auto param : concerned_params_) {                                          \
-            keys.emplace_back(param->getKey());                                         \
+        CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                                 \
+        for (const auto& key : concerned_params_) {                                     \
+            keys.emplace_back(key);                                                     \
         }                                                                               \
         return keys;                                                                    \
     }                                                                                   \
@@ -134,7 +140,8 @@ private:
         return this;                                                                    \
     }                                                                                   \
                                                                                         \
-    GParamPtrSet concerned_params_;    /* 记录链路上使用过GParam信息 */                    \
+    std::set<std::string> concerned_params_;    /* 记录链路上使用过GParam的key信息（GParam可能被删除，故不记录指针） */ \
+    mutable std::mutex concerned_params_lock_;                                          \
                                                                                         \
 protected:                                                                              \
                                                                                         \
-- 
2.43.0


From ab008095a1223f090902b7816c432a5d40741314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 13/56] fix: destroy() waits for elements that exceeded their
 time limit, also with a shared thread pool

The record of an execution that was still in progress was dropped at the end of the run, so with
a shared pool it could outlive destroy() and the removal of the pipeline.
---
 src/GraphCtrl/GraphElement/GElement.cpp       |  8 ++++++
 src/GraphCtrl/GraphElement/GElement.h         |  1 +
 .../GraphElement/GElementRepository.cpp       | 25 +++++++++++++------
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index f2212e6..d81f32f 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -559,6 +559,14 @@ CStatus GElement::asyncRun() {
         const auto result = std::move(async_result_);
         status = result.get();
     } else {
+        // 之前超时的执行如果已经结束，就不再需要记录了（除非 pipeline 还需要获取其结果）
+        if (GElementTimeoutStrategy::HOLD_BY_PIPELINE != timeout_strategy_) {
+            late_results_.erase(std::remove_if(late_results_.begin(), late_results_.end(),
+                                               [](const std::shared_future<CStatus>& cur) {
+                return std::future_status::ready == cur.wait_for(std::chrono::milliseconds(0));
+            }), late_results_.end());
+        }
+        late_results_.emplace_back(async_result_);
         doAspect(internal::GAspectType::ENTER_TIMEOUT);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION( GElementTimeoutStrategy::AS_ERROR == timeout_strategy_,    \
         "[" + name_ + "] running time more than [" + std::to_string(timeout_) + "]ms")
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 5e386eb..2724ead 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -476,6 +476,7 @@ private:
 
     /** 异步执行相关信息 */
     std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
+    std::vector<std::shared_future<CStatus>> late_results_;                   // 用于记录超时之后，仍在执行的情况
     const std::atomic<GElementState>* pipeline_state_ { nullptr };            // 所属 pipeline 的执行状态，所有 element 共用
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 12b0b3c..c7d5cc5 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -49,14 +49,17 @@ CStatus GElementRepository::reset() {
 
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
-            // 强烈建议，在这里等待执行完成
-            try {
-                status += cur->getAsyncResult();
-            } catch (const CException& ex) {
-                // 超时之后抛出的异常，不能影响其他 element 的等待和状态恢复
-                (void)cur->doAspect(internal::GAspectType::ENTER_CRASHED);
-                status += cur->crashed(ex);
+            for (auto& late : cur->late_results_) {
+                // 强烈建议，在这里等待执行完成
+                try {
+                    status += late.get();
+                } catch (const CException& ex) {
+                    // 超时之后抛出的异常，不能影响其他 element 的等待和状态恢复
+                    (void)cur->doAspect(internal::GAspectType::ENTER_CRASHED);
+                    status += cur->crashed(ex);
+                }
             }
+            cur->late_results_.clear();
         }
         cur->async_result_ = std::shared_future<CStatus>();
 
@@ -161,6 +164,14 @@ CStatus GElementRepository::destroy() {
      * 问题详见: https://github.com/ChunelFeng/CGraph/issues/153
      */
     status = pushAllState(GElementState::NORMAL);
+
+    // 超时之后仍在执行的 element，需要在这里结束（线程池可能是共享的，不会随着 pipeline 一起析构）
+    for (auto& cur : async_elements_) {
+        for (auto& late : cur->late_results_) {
+            late.wait();
+        }
+        cur->late_results_.clear();
+    }
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 53fbf4dad02887cee533cdd6125e0b85ccb5f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 14/56] fix: events that are to be finished with the pipeline
 are executed before its thread pool ends

destroy() ended the thread pool first, dropping the queued ones; waiting for events no longer
holds the lock that triggering the same event needs.
---
 src/GraphCtrl/GraphEvent/GEvent.cpp       | 32 ++++++++++++++++-------
 src/GraphCtrl/GraphEvent/GEvent.h         |  8 ++++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp |  7 +++--
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/GraphCtrl/GraphEvent/GEvent.cpp b/src/GraphCtrl/GraphEvent/GEvent.cpp
index 52ff07e..155d202 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.cpp
+++ b/src/GraphCtrl/GraphEvent/GEvent.cpp
@@ -33,6 +33,7 @@ CStatus GEvent::fatInit() {
 CStatus GEvent::fatDestroy() {
     CGRAPH_FUNCTION_BEGIN
 
+    asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);    // 在 run 之外触发的部分
     asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
     async_run_finish_futures_.clear();
     async_destroy_futures_.clear();
@@ -85,19 +86,11 @@ std::shared_future<CVoid> GEvent::asyncProcess(GEventAsyncStrategy strategy) {
 CVoid GEvent::asyncWait(GEventAsyncStrategy strategy) {
     switch (strategy) {
         case GEventAsyncStrategy::PIPELINE_RUN_FINISH: {
-            CGRAPH_LOCK_GUARD lock(async_run_finished_lock_);
-            for (auto& cur : async_run_finish_futures_) {
-                cur.valid() ? cur.wait() : void();
-            }
-            async_run_finish_futures_.clear();
+            waitFutures(async_run_finish_futures_, async_run_finished_lock_);
             break;
         }
         case GEventAsyncStrategy::PIPELINE_DESTROY: {
-            CGRAPH_LOCK_GUARD lock(async_destroy_lock_);
-            for (auto& cur : async_destroy_futures_) {
-                cur.valid() ? cur.wait() : void();
-            }
-            async_destroy_futures_.clear();
+            waitFutures(async_destroy_futures_, async_destroy_lock_);
             break;
         }
         default:
@@ -105,4 +98,23 @@ CVoid GEvent::asyncWait(GEventAsyncStrategy strategy) {
     }
 }
 
+
+CVoid GEvent::waitFutures(std::vector<std::shared_future<CVoid>>& futures, std::mutex& mtx) {
+    while (true) {
+        // 等待的过程中，不可以持有锁。否则同时触发此 event 的线程，会被阻塞
+        std::vector<std::shared_future<CVoid>> waiting;
+        {
+            CGRAPH_LOCK_GUARD lock(mtx);
+            waiting.swap(futures);
+        }
+
+        if (waiting.empty()) {
+            break;
+        }
+        for (auto& cur : waiting) {
+            cur.valid() ? cur.wait() : void();
+        }
+    }
+}
+
 CGRAPH_NAMESPACE_END
\ No newline at end of file
diff --git a/src/GraphCtrl/GraphEvent/GEvent.h b/src/GraphCtrl/GraphEvent/GEvent.h
index 159c973..2c3aa4b 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.h
+++ b/src/GraphCtrl/GraphEvent/GEvent.h
@@ -68,6 +68,14 @@ private:
      */
     CVoid asyncWait(GEventAsyncStrategy strategy);
 
+    /**
+     * 等待并清理集合中的异步逻辑
+     * @param futures
+     * @param mtx
+     * @return
+     */
+    static CVoid waitFutures(std::vector<std::shared_future<CVoid>>& futures, std::mutex& mtx);
+
 private:
     std::vector<std::shared_future<CVoid>> async_run_finish_futures_ {};    // 异步执行的逻辑集合（pipeline run结束的时候）
     std::vector<std::shared_future<CVoid>> async_destroy_futures_ {};       // 异步执行的逻辑集合（pipeline destroy 的时候）
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 5715044..1d04c95 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -110,11 +110,14 @@ CStatus GPipeline::destroy() {
      * 否则的话，在错误status累积的情况下，在windows平台上，会产生崩溃
      */
     status += repository_.destroy();
+
+    // 异步触发的 event，可能仍在线程池中排队，需要在线程池析构之前，等待其执行完成
+    CStatus eventStatus = daemon_manager_->destroy();
+    eventStatus += event_manager_->destroy();
     status += schedule_.destroy();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status += event_manager_->destroy();
-    status += daemon_manager_->destroy();
+    status += eventStatus;
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
-- 
2.43.0


From 519b29bdb9210aefaf648bf48ae819d9a271a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:00 +0000
Subject: [PATCH 15/56] fix: a stage can be entered again by the threads it
 releases

A released thread that came back before another one had woken up changed the count the latter was
waiting for, so that it waited for ever. A launch that throws now also releases the others, and a
second stage with the same key is refused, as for events, instead of being leaked.
---
 src/GraphCtrl/GraphPipeline/GPipeline.inl |  3 ++-
 src/GraphCtrl/GraphStage/GStage.cpp       | 25 +++++++++++++++++------
 src/GraphCtrl/GraphStage/GStage.h         |  7 +++++++
 src/GraphCtrl/GraphStage/GStageManager.h  |  2 ++
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index bb26dc6..0608759 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -257,7 +257,8 @@ GPipelinePtr GPipeline::addGStage(const std::string& key, CInt threshold, TParam
     CGRAPH_THROW_EXCEPTION_BY_CONDITION(threshold <= 0, "threshold value must bigger than 0")
 
     stage_manager_->setGParamManager(param_manager_);
-    stage_manager_->create<TStage, TParam>(key, threshold, param);
+    const auto& status = stage_manager_->create<TStage, TParam>(key, threshold, param);
+    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
     return this;
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStage.cpp b/src/GraphCtrl/GraphStage/GStage.cpp
index d0d2197..f68a908 100644
--- a/src/GraphCtrl/GraphStage/GStage.cpp
+++ b/src/GraphCtrl/GraphStage/GStage.cpp
@@ -32,18 +32,31 @@ GStagePtr GStage::setThreshold(CInt threshold) {
 
 CVoid GStage::waiting() {
     CGRAPH_UNIQUE_LOCK lk(locker_.mtx_);
+    const CSize round = round_;
     cur_value_++;
     if (cur_value_ >= threshold_) {
-        // 如果超过了 threshold，则打开全部
-        launch(param_);
-        cur_value_ = 0;
-        locker_.cv_.notify_all();
+        // 无论 launch 成功与否，均需要放行，避免其他线程一直等待
+        try {
+            launch(param_);
+        } catch (...) {
+            release();
+            throw;
+        }
+        release();
         return;
     }
 
-    locker_.cv_.wait(lk, [this] {
-        return 0 == cur_value_ || cur_value_ >= threshold_;
+    // 通过轮次来判断，而不是计数。因为被唤醒之前，其他线程可能已经再次进入
+    locker_.cv_.wait(lk, [this, round] {
+        return round != round_;
     });
 }
 
+
+CVoid GStage::release() {
+    cur_value_ = 0;
+    round_++;
+    locker_.cv_.notify_all();
+}
+
 CGRAPH_NAMESPACE_END
\ No newline at end of file
diff --git a/src/GraphCtrl/GraphStage/GStage.h b/src/GraphCtrl/GraphStage/GStage.h
index fdc26db..1831527 100644
--- a/src/GraphCtrl/GraphStage/GStage.h
+++ b/src/GraphCtrl/GraphStage/GStage.h
@@ -54,6 +54,12 @@ private:
      */
     CVoid waiting();
 
+    /**
+     * 结束本轮，放行所有等待的线程
+     * @return
+     */
+    CVoid release();
+
     CGRAPH_DECLARE_GPARAM_MANAGER_WRAPPER_WITH_MEMBER
 
     CGRAPH_NO_ALLOWED_COPY(GStage)
@@ -61,6 +67,7 @@ private:
 private:
     CInt threshold_ { 0 };                // 阈值信息
     CInt cur_value_ { 0 };                // 当前值
+    CSize round_ { 0 };                   // 当前的轮次信息
     GStageParamPtr param_ { nullptr };    // 参数信息
     UCvMutex locker_;
 
diff --git a/src/GraphCtrl/GraphStage/GStageManager.h b/src/GraphCtrl/GraphStage/GStageManager.h
index 911ce4d..58b0278 100644
--- a/src/GraphCtrl/GraphStage/GStageManager.h
+++ b/src/GraphCtrl/GraphStage/GStageManager.h
@@ -64,6 +64,8 @@ protected:
             c_enable_if_t<std::is_base_of<GStageParam, TParam>::value, int> = 0>
     CStatus create(const std::string& key, CInt threshold, TParam* param) {
         CGRAPH_FUNCTION_BEGIN
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(stage_map_.find(key) != stage_map_.end(),
+                                                "[" + key + "] add stage duplicate");
         GStagePtr stage = CGRAPH_SAFE_MALLOC_COBJECT(TStage);
         stage->setThreshold(threshold);
         stage->setSParam(param);
-- 
2.43.0


From bbdf43ec2458de43f635215a19412ea1a2a26bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 16/56] fix: stopping a timer does not wait for its interval,
 and a failed init() starts no daemon

The notification of stop() could fall between the check and the wait of the timer thread, which
then slept for the whole interval; any other wakeup made it skip an execution. Daemons were started
although init() failed, and could then call into a daemon that was being destructed.
---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp |  1 +
 src/UtilsCtrl/Timer/UTimer.h              | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 1d04c95..a72a1f4 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -45,6 +45,7 @@ CStatus GPipeline::init() {
     status += event_manager_->init();
     status += element_manager_->init();
     status += stage_manager_->init();
+    CGRAPH_FUNCTION_CHECK_STATUS
     status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
     CGRAPH_FUNCTION_CHECK_STATUS
 
diff --git a/src/UtilsCtrl/Timer/UTimer.h b/src/UtilsCtrl/Timer/UTimer.h
index f85c715..864eab0 100644
--- a/src/UtilsCtrl/Timer/UTimer.h
+++ b/src/UtilsCtrl/Timer/UTimer.h
@@ -45,8 +45,11 @@ public:
         future_ = std::async(std::launch::async, [this, task, modify]() {
              while (!is_stop_) {
                  CGRAPH_UNIQUE_LOCK lk(mutex_);
-                 auto result = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_));
-                 if (std::cv_status::timeout == result && !is_stop_) {
+                 // 仅在到时的情况下执行，不受虚假唤醒的影响
+                 const CBool isStop = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_), [this] {
+                     return is_stop_.load();
+                 });
+                 if (!isStop) {
                      CMSec start = CGRAPH_GET_CURRENT_MS();
                      task();
                      CMSec ms = modify();
@@ -79,7 +82,11 @@ public:
             return;
         }
 
-        cv_.notify_one();
+        {
+            // 确保通知不会落在"检查状态"和"进入等待"之间，否则会一直等到下一次到时
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            cv_.notify_one();
+        }
         future_.wait();
     }
 
-- 
2.43.0


From 353630714d66919a7f94238c3aa18e0bc738f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 17/56] fix: a ring buffer queue of capacity n holds n messages
 and can be used after clear()

One of the slots is always left empty, so a topic of capacity 1 lost every message (or blocked its
sender for ever) and capacity 0 divided by zero. clear() left a vector without slots, so the next
push wrote out of bounds.
---
 .../ThreadPool/Queue/UAtomicRingBufferQueue.h | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index f191afc..ad06839 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -25,7 +25,7 @@ public:
         head_ = 0;
         tail_ = 0;
         capacity_ = capacity;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(capacity_ + 1);    // 多申请一个位置，用于区分 满 和 空 的状态
     }
 
     ~UAtomicRingBufferQueue() override {
@@ -39,8 +39,9 @@ public:
      * @notice 谨慎使用，push信息之后，不推荐使用
      */
     UAtomicRingBufferQueue* setCapacity(const CUInt size) {
+        CGRAPH_LOCK_GUARD lk(mutex_);
         capacity_ = size;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(capacity_ + 1);
         return this;
     }
 
@@ -69,7 +70,7 @@ public:
                         push_cv_.wait(lk, [this] { return !isFull(); });
                         break;
                     case URingBufferPushStrategy::REPLACE:
-                        head_ = (head_ + 1) % capacity_;
+                        head_ = next(head_);
                         break;
                     case URingBufferPushStrategy::DROP:
                         return;    // 直接返回，不写入即可
@@ -77,7 +78,7 @@ public:
             }
 
             ring_buffer_queue_[tail_] = value;
-            tail_ = (tail_ + 1) % capacity_;
+            tail_ = next(tail_);
         }
         pop_cv_.notify_one();
     }
@@ -102,7 +103,7 @@ public:
             }
 
             value = std::move(ring_buffer_queue_[head_]);
-            head_ = (head_ + 1) % capacity_;
+            head_ = next(head_);
         }
         push_cv_.notify_one();
         CGRAPH_FUNCTION_END
@@ -114,9 +115,13 @@ public:
      */
     CStatus clear() {
         CGRAPH_FUNCTION_BEGIN
-        ring_buffer_queue_.resize(0);
-        head_ = 0;
-        tail_ = 0;
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            ring_buffer_queue_.assign(capacity_ + 1, nullptr);
+            head_ = 0;
+            tail_ = 0;
+        }
+        push_cv_.notify_all();
         CGRAPH_FUNCTION_END
     }
 
@@ -127,7 +132,7 @@ protected:
      */
     CBool isFull() const {
         // 空出来一个位置，这个时候不让 tail写入
-        return head_ == (tail_ + 1) % capacity_;
+        return head_ == next(tail_);
     }
 
     /**
@@ -138,6 +143,15 @@ protected:
         return head_ == tail_;
     }
 
+    /**
+     * 环形缓冲中的下一个位置
+     * @param index
+     * @return
+     */
+    CUInt next(const CUInt index) const {
+        return (index + 1) % (capacity_ + 1);
+    }
+
     CGRAPH_NO_ALLOWED_COPY(UAtomicRingBufferQueue)
 
 private:
-- 
2.43.0


From a84f2bcefda28ca0a8d78ba72be0666196902046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 18/56] fix: message topics can be bound, detached, dropped and
 removed while other threads use them

detachConnId() left the deleted message in the topic (the next publish or detach used it), dropTopic()
left it reachable through its connection id, and send/recv/pub/sub looked the maps up without the
lock and went on using a message that another thread removed.
---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 101 +++++++++----------
 1 file changed, 49 insertions(+), 52 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 733a1dc..734edac 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -41,13 +41,13 @@ public:
         auto result = send_recv_message_map_.find(innerTopic);
         if (result != send_recv_message_map_.end()) {
             // 如果类型和size完全匹配的话，则直接返回创建成功。否则返回错误
-            auto curTopic = result->second;
+            auto* curTopic = result->second.get();
             status = (typeid(*curTopic).name() == typeid(GMessage<TImpl>).name() && curTopic->getCapacity() == size)
                      ? CStatus() : CStatus("create topic [" + topic + "] duplicate");
         } else {
             // 创建一个 topic信息
             auto message = CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size);
-            send_recv_message_map_.insert(std::pair<const std::string&, GMessagePtr<T> >(innerTopic, GMessagePtr<T>(message)));
+            send_recv_message_map_[innerTopic] = std::shared_ptr<GMessage<T> >((GMessagePtr<T>)message);
         }
 
         CGRAPH_FUNCTION_END
@@ -67,7 +67,6 @@ public:
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        CGRAPH_DELETE_PTR(result->second);
         send_recv_message_map_.erase(result);
 
         CGRAPH_FUNCTION_END
@@ -88,14 +87,12 @@ public:
                            CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
+        const auto holder = findTopic(innerTopic);
+        if (nullptr == holder) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        auto message = (GMessagePtr<TImpl>)(result->second);
-        CGRAPH_ASSERT_NOT_NULL(message);
-
+        auto message = (GMessagePtr<TImpl>)(holder.get());
         status = message->recv(value, timeout);
         CGRAPH_FUNCTION_END
     }
@@ -115,14 +112,11 @@ public:
                            GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
+        const auto message = findTopic(innerTopic);
+        if (nullptr == message) {
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        auto message = static_cast<GMessagePtr<T> >(result->second);
-        CGRAPH_ASSERT_NOT_NULL(message);
-
         message->send(value, strategy);
         CGRAPH_FUNCTION_END
     }
@@ -141,19 +135,9 @@ public:
 
         CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
         CIndex connId = (++cur_conn_id_);
-        auto message = CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size, connId);
-        auto result = pub_sub_message_map_.find(innerTopic);
-        if (result != pub_sub_message_map_.end()) {
-            // 如果之前有的话，则在后面添加一个
-            auto& messageSet = result->second;
-            messageSet.insert((GMessagePtr<T>)message);
-        } else {
-            // 如果是这个topic第一次被绑定，则创建一个对应的set信息
-            std::set<GMessagePtr<T>> messageSet {};
-            messageSet.insert((GMessagePtr<T>)message);
-            pub_sub_message_map_[innerTopic] = messageSet;
-        }
-        conn_message_map_[connId] = (GMessagePtr<T>)message;
+        std::shared_ptr<GMessage<T> > message((GMessagePtr<T>)(CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size, connId)));
+        pub_sub_message_map_[innerTopic].insert(message);    // 如果是这个topic第一次被绑定，则会创建一个对应的set信息
+        conn_message_map_[connId] = message;
         return connId;
     }
 
@@ -175,9 +159,9 @@ public:
         }
 
         auto& messageSet = result->second;
-        for (auto* msg : messageSet) {
-            if (connId == msg->getConnId()) {
-                CGRAPH_DELETE_PTR(msg);
+        for (auto iter = messageSet.begin(); iter != messageSet.end(); ++iter) {
+            if (connId == (*iter)->getConnId()) {
+                messageSet.erase(iter);
                 conn_message_map_.erase(connId);
                 break;
             }
@@ -201,13 +185,17 @@ public:
                           GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         auto innerTopic = internal::PUB_SUB_PREFIX + topic;
-        auto result = pub_sub_message_map_.find(innerTopic);
-        if (result == pub_sub_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        std::set<std::shared_ptr<GMessage<T> > > messageSet;
+        {
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = pub_sub_message_map_.find(innerTopic);
+            if (result == pub_sub_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            messageSet = result->second;
         }
 
-        auto& messageSet = result->second;
-        for (auto msg : messageSet) {
+        for (const auto& msg : messageSet) {
             msg->send(value, strategy);    // 给所有订阅的信息，一次发送消息
         }
         CGRAPH_FUNCTION_END
@@ -225,11 +213,17 @@ public:
             c_enable_if_t<std::is_base_of<T, TImpl>::value, int> = 0>
     CStatus subTopicValue(CIndex connId, std::shared_ptr<TImpl>& value, CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
-        if (conn_message_map_.end() == conn_message_map_.find(connId)) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+        std::shared_ptr<GMessage<T> > holder = nullptr;
+        {
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = conn_message_map_.find(connId);
+            if (conn_message_map_.end() == result) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+            }
+            holder = result->second;
         }
 
-        auto message = (GMessagePtr<TImpl>)(conn_message_map_[connId]);
+        auto message = (GMessagePtr<TImpl>)(holder.get());
         status = message->recv(value, timeout);
         CGRAPH_FUNCTION_END
     }
@@ -248,11 +242,10 @@ public:
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        auto& messageSet = result->second;
-        for (auto* msg : messageSet) {
-            CGRAPH_DELETE_PTR(msg)
+        for (const auto& msg : result->second) {
+            conn_message_map_.erase(msg->getConnId());
         }
-        pub_sub_message_map_.erase(innerTopic);
+        pub_sub_message_map_.erase(result);
         CGRAPH_FUNCTION_END
     }
 
@@ -264,19 +257,11 @@ public:
         CGRAPH_FUNCTION_BEGIN
         {
             CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
-            for (auto& cur : send_recv_message_map_) {
-                CGRAPH_DELETE_PTR(cur.second)
-            }
             send_recv_message_map_.clear();
         }
 
         {
             CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
-            for (auto& cur : pub_sub_message_map_) {
-                for (auto* iter : cur.second) {
-                    CGRAPH_DELETE_PTR(iter);
-                }
-            }
             pub_sub_message_map_.clear();
             conn_message_map_.clear();
             cur_conn_id_ = 0;
@@ -304,9 +289,21 @@ protected:
     }
 
 private:
-    std::unordered_map<std::string, GMessagePtr<T>> send_recv_message_map_;    // 记录 topic 和 message queue 信息
-    std::unordered_map<std::string, std::set<GMessagePtr<T>>> pub_sub_message_map_;    // 记录 pub和sub的 message 的信息
-    std::unordered_map<CIndex, GMessagePtr<T>> conn_message_map_;    // 用于根据 index反推message信息
+    /**
+     * 查找 send_recv 的 topic 对应的信息。返回的信息，在使用期间不会被释放
+     * @param innerTopic
+     * @return
+     */
+    std::shared_ptr<GMessage<T> > findTopic(const std::string& innerTopic) {
+        CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
+        auto result = send_recv_message_map_.find(innerTopic);
+        return result != send_recv_message_map_.end() ? result->second : nullptr;
+    }
+
+private:
+    std::unordered_map<std::string, std::shared_ptr<GMessage<T> > > send_recv_message_map_;    // 记录 topic 和 message queue 信息
+    std::unordered_map<std::string, std::set<std::shared_ptr<GMessage<T> > > > pub_sub_message_map_;    // 记录 pub和sub的 message 的信息
+    std::unordered_map<CIndex, std::shared_ptr<GMessage<T> > > conn_message_map_;    // 用于根据 index反推message信息
     CIndex cur_conn_id_ = 0;    // 记录当前的conn信息
 
     std::mutex pub_sub_mutex_;
-- 
2.43.0


From 35423aad134a23afb68d344de81603698b73c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 19/56] fix: UThreadPool::commitWithTid() compiles

It called execute() with the arguments of executeWithTid(), so no program could use it.
---
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 841cd1a..1de924b 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -32,7 +32,7 @@ auto UThreadPool::commitWithTid(const FunctionType& func, CIndex tid, CBool enab
     std::packaged_task<ResultType()> task(std::move(func));
     std::future<ResultType> result(task.get_future());
 
-    execute(std::move(task), tid, enable, lockable);
+    executeWithTid(std::move(task), tid, enable, lockable);
     return result;
 }
 
-- 
2.43.0


From 0747332687851796947cd4dbcf3f6864d69c7eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 20/56] fix: tasks with a priority are executed by priority

The priority queue compared the addresses of the tasks, not their priorities (and UTask::operator<
was neither irreflexive nor the documented order: larger priorities first).
---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h | 8 +++++++-
 src/UtilsCtrl/ThreadPool/Task/UTask.h                 | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 552f4f5..1478b51 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -86,7 +86,13 @@ public:
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
-    std::priority_queue<std::unique_ptr<T> > priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
+    struct Less {
+        CBool operator()(const std::unique_ptr<T>& lhs, const std::unique_ptr<T>& rhs) const {
+            return *lhs < *rhs;
+        }
+    };
+
+    std::priority_queue<std::unique_ptr<T>, std::vector<std::unique_ptr<T> >, Less> priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
 };
 
 CGRAPH_NAMESPACE_END
diff --git a/src/UtilsCtrl/ThreadPool/Task/UTask.h b/src/UtilsCtrl/ThreadPool/Task/UTask.h
index e0e9d6c..97c587b 100644
--- a/src/UtilsCtrl/ThreadPool/Task/UTask.h
+++ b/src/UtilsCtrl/ThreadPool/Task/UTask.h
@@ -56,11 +56,11 @@ public:
     }
 
     CBool operator>(const UTask& task) const {
-        return priority_ < task.priority_;    // 新加入的，放到后面
+        return priority_ > task.priority_;
     }
 
     CBool operator<(const UTask& task) const {
-        return priority_ >= task.priority_;
+        return priority_ < task.priority_;
     }
 
     CGRAPH_NO_ALLOWED_COPY(UTask)
-- 
2.43.0


From 5512d9ffc370ab26abd0c991519d5f30da9bc654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 21/56] fix: a task with a priority or of long running time is
 executed although no secondary thread can be created

With max_thread_size_ == default_thread_size_ (the default) nobody ever took it from the queue.
The list of secondary threads was also read without the lock.
---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 20 ++++++++++++++++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.h   |  8 ++++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.inl |  8 ++------
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 7a5c272..74acf4f 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -242,6 +242,26 @@ CStatus UThreadPool::createSecondaryThread(const CInt size) {
 }
 
 
+CVoid UThreadPool::pushPriorityTask(UTask&& task, const int priority) {
+    const auto exist = [this] {
+        CGRAPH_LOCK_GUARD lock(st_mutex_);
+        return std::any_of(secondary_threads_.begin(), secondary_threads_.end(),
+                           [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; });
+    };
+
+    if (!exist()) {
+        createSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
+    }
+
+    if (exist()) {
+        priority_task_queue_.push(std::move(task), priority);
+    } else {
+        task_queue_.push(std::move(task));    // 已经达到最大线程数，交给主线程执行
+        (void)wakeupAllThread();
+    }
+}
+
+
 CVoid UThreadPool::monitor() {
     while (config_.monitor_enable_) {
         while (config_.monitor_enable_ && !is_init_) {
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 801f49a..23ab40c 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -197,6 +197,14 @@ protected:
      */
     CVoid monitor();
 
+    /**
+     * 写入带有优先级的任务。如果没有辅助线程，则开启一个；如果无法开启，则作为普通任务执行
+     * @param task
+     * @param priority
+     * @return
+     */
+    CVoid pushPriorityTask(UTask&& task, int priority);
+
     CGRAPH_NO_ALLOWED_COPY(UThreadPool)
 
 private:
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 1de924b..7d20bb0 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -45,11 +45,7 @@ auto UThreadPool::commitWithPriority(const FunctionType& func, int priority)
     std::packaged_task<ResultType()> task(func);
     std::future<ResultType> result(task.get_future());
 
-    if (secondary_threads_.empty()) {
-        createSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
-    }
-
-    priority_task_queue_.push(std::move(task), priority);
+    pushPriorityTask(std::move(task), priority);
     return result;
 }
 
@@ -61,7 +57,7 @@ CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
     if (likely(realIndex >= 0 && realIndex < config_.default_thread_size_)) {
         primary_threads_[realIndex]->pushTask(std::forward<FunctionType>(task));
     } else if (CGRAPH_LONG_TIME_TASK_STRATEGY == realIndex) {
-        priority_task_queue_.push(std::forward<FunctionType>(task), CGRAPH_LONG_TIME_TASK_STRATEGY);
+        pushPriorityTask(std::forward<FunctionType>(task), CGRAPH_LONG_TIME_TASK_STRATEGY);
     } else {
         // 写入 pool 通用的任务队列后，需要唤醒等待中的线程，避免任务只能等到线程休眠超时之后才被执行
         task_queue_.push(std::forward<FunctionType>(task));
-- 
2.43.0


From 173f70de5d42a313453fc604518a0a758fbb3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 22/56] fix: UThreadPool::destroy() drops the tasks nobody
 executed

Tasks left in the shared queue kept their futures waiting, those with a priority were even executed
after the next init(). A secondary thread that is still executing a task no longer finds the primary
threads deleted when it adds another one.
---
 .../ThreadPool/Queue/UAtomicPriorityQueue.h     | 12 ++++++++++++
 src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h   | 14 +++++++++++++-
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp        | 17 +++++++++++------
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 1478b51..570b86e 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -83,6 +83,18 @@ public:
         return priority_queue_.empty();
     }
 
+    /**
+     * 清空所有的任务
+     * @return
+     */
+    CVoid clear() {
+        decltype(priority_queue_) tasks;
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            priority_queue_.swap(tasks);
+        }
+    }
+
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h
index bd06e1a..eb165d7 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicQueue.h
@@ -162,7 +162,19 @@ public:
             CGRAPH_UNIQUE_LOCK lk(mutex_);
             ready_flag_ = true;
         }
-        queue_ = {};
+        clear();
+    }
+
+    /**
+     * 清空所有的内容
+     * @return
+     */
+    CVoid clear() {
+        decltype(queue_) values;
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            queue_.swap(values);
+        }
     }
 
     CGRAPH_NO_ALLOWED_COPY(UAtomicQueue)
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 74acf4f..14c7cbd 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -151,6 +151,13 @@ CStatus UThreadPool::destroy() {
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
+    task_queue_.reset();
+    for (auto &st : secondary_threads_) {
+        CGRAPH_ASSERT_NOT_NULL(st.get());
+        status += st->destroy();
+    }
+    CGRAPH_FUNCTION_CHECK_STATUS
+
     /**
      * 这里之所以 destroy和 delete分开两个循环执行，
      * 是因为当前线程被delete后，还可能存在未被delete的主线程，来steal当前线程的任务
@@ -164,13 +171,11 @@ CStatus UThreadPool::destroy() {
     primary_threads_.clear();
 
     // secondary 线程是智能指针，不需要delete
-    task_queue_.reset();
-    for (auto &st : secondary_threads_) {
-        CGRAPH_ASSERT_NOT_NULL(st.get());
-        status += st->destroy();
-    }
-    CGRAPH_FUNCTION_CHECK_STATUS
     secondary_threads_.clear();
+
+    // 丢弃未被执行的任务，避免在下一次 init 之后被执行，也避免对应的 future 一直处于等待状态
+    task_queue_.clear();
+    priority_task_queue_.clear();
     thread_record_map_.clear();
     is_init_ = false;
 
-- 
2.43.0


From b4557bb233ea1b65d1432bbac09490391b06f2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 23/56] fix: a secondary thread that is released is stopped
 before its object is destructed

The thread was joined by the destructor of the base class, so it could call a pure virtual function.
---
 src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h   | 4 ++++
 src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h
index d7bc5f3..c4edb35 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadPrimary.h
@@ -24,6 +24,10 @@ protected:
         type_ = CGRAPH_THREAD_TYPE_PRIMARY;
     }
 
+    ~UThreadPrimary() override {
+        reset();    // 需要在析构本对象之前停止线程，因为线程中会调用本类中的虚函数
+    }
+
 
     CStatus init() override {
         CGRAPH_FUNCTION_BEGIN
diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index 4648234..a56f723 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -20,6 +20,10 @@ public:
         type_ = CGRAPH_THREAD_TYPE_SECONDARY;
     }
 
+    ~UThreadSecondary() override {
+        reset();    // 需要在析构本对象之前停止线程，因为线程中会调用本类中的虚函数
+    }
+
 
 protected:
     CStatus init() override {
-- 
2.43.0


From ed31cfcf0db821db9b57b9e2d96b6fdd24dda4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 24/56] fix: a thread pool with a monitor can be destroyed and
 initialised again

The monitor thread lived until the destructor: it walked over the primary threads while destroy()
deleted them, and the next init() assigned to the joinable thread (std::terminate).
---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 47 ++++++++++++++----------
 src/UtilsCtrl/ThreadPool/UThreadPool.h   |  3 ++
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 14c7cbd..68c3b13 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -21,11 +21,6 @@ UThreadPool::UThreadPool(const CBool autoInit, const UThreadPoolConfig& config)
 
 
 UThreadPool::~UThreadPool() {
-    this->config_.monitor_enable_ = false;    // 在析构的时候，才释放监控线程。先释放监控线程，再释放其他的线程
-    if (monitor_thread_.joinable()) {
-        monitor_thread_.join();
-    }
-
     destroy();
 }
 
@@ -50,10 +45,6 @@ CStatus UThreadPool::init() {
         CGRAPH_FUNCTION_END
     }
 
-    if (config_.monitor_enable_) {
-        // 默认不开启监控线程
-        monitor_thread_ = std::thread(&UThreadPool::monitor, this);
-    }
     thread_record_map_.clear();
     thread_record_map_[std::hash<std::thread::id>{}(std::this_thread::get_id())] = CGRAPH_MAIN_THREAD_ID;
     task_queue_.setup();
@@ -85,6 +76,12 @@ CStatus UThreadPool::init() {
     CGRAPH_FUNCTION_CHECK_STATUS
 
     is_init_ = true;
+
+    if (config_.monitor_enable_) {
+        // 默认不开启监控线程
+        monitor_stop_ = false;
+        monitor_thread_ = std::thread(&UThreadPool::monitor, this);
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -144,6 +141,16 @@ CStatus UThreadPool::destroy() {
         CGRAPH_FUNCTION_END
     }
 
+    // 先释放监控线程，再释放其他的线程
+    {
+        CGRAPH_LOCK_GUARD lock(monitor_mutex_);
+        monitor_stop_ = true;
+    }
+    monitor_cv_.notify_one();
+    if (monitor_thread_.joinable()) {
+        monitor_thread_.join();
+    }
+
     // primary 线程是普通指针，需要delete
     for (const auto& pt : primary_threads_) {
         CGRAPH_ASSERT_NOT_NULL(pt);
@@ -268,15 +275,12 @@ CVoid UThreadPool::pushPriorityTask(UTask&& task, const int priority) {
 
 
 CVoid UThreadPool::monitor() {
-    while (config_.monitor_enable_) {
-        while (config_.monitor_enable_ && !is_init_) {
-            // 如果没有init，则一直处于空跑状态
-            CGRAPH_SLEEP_SECOND(1)
-        }
-
-        auto span = config_.monitor_span_;
-        while (config_.monitor_enable_ && is_init_ && span--) {
-            CGRAPH_SLEEP_SECOND(1)    // 保证可以快速退出
+    while (true) {
+        {
+            CGRAPH_UNIQUE_LOCK lk(monitor_mutex_);
+            if (monitor_cv_.wait_for(lk, std::chrono::seconds(config_.monitor_span_), [this] { return monitor_stop_; })) {
+                break;    // 保证可以快速退出
+            }
         }
 
         // 如果 primary线程都在执行，则表示忙碌
@@ -288,10 +292,15 @@ CVoid UThreadPool::monitor() {
             createSecondaryThread(1);
         }
 
+        // 等待线程退出的时候，不持有锁
+        std::list<std::unique_ptr<UThreadSecondary>> frozen;
         CGRAPH_LOCK_GUARD lock(st_mutex_);
         // 判断 secondary 线程是否需要退出
         for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-            (*iter)->freeze() ? secondary_threads_.erase(iter++) : iter++;
+            const auto cur = iter++;
+            if ((*cur)->freeze()) {
+                frozen.splice(frozen.end(), secondary_threads_, cur);
+            }
         }
     }
 }
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 23ab40c..01fcc37 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -216,6 +216,9 @@ private:
     std::list<std::unique_ptr<UThreadSecondary>> secondary_threads_;                // 用于记录所有的辅助线程
     UThreadPoolConfig config_;                                                      // 线程池设置值
     std::thread monitor_thread_;                                                    // 监控线程
+    CBool monitor_stop_ { false };                                                  // 监控线程是否需要退出
+    std::mutex monitor_mutex_;
+    std::condition_variable monitor_cv_;
     std::map<CSize, int> thread_record_map_;                                        // 线程记录的信息
     std::mutex st_mutex_;                                                           // 辅助线程发生变动的时候，加的mutex信息
     std::mutex wakeup_mutex_;                                                       // 防止wakeupAllThread并发重入
-- 
2.43.0


From 9a72a56f0699c470d9036f723cc84214ababe229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 25/56] fix: releasing secondary threads neither blocks nor
 hinders the creation of others

A thread that was released still counted, so a later createSecondaryThread() created none, and the
next release joined it while holding the lock (a deadlock if its task creates or releases threads,
std::terminate if it is the calling thread itself).
---
 .../ThreadPool/Thread/UThreadSecondary.h      |  2 ++
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      | 26 ++++++++++++-------
 src/UtilsCtrl/ThreadPool/UThreadPool.h        |  6 +++++
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index a56f723..7552106 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -65,6 +65,7 @@ protected:
         CGRAPH_ASSERT_INIT(true)
 
         loopProcess();
+        finished_ = true;
         CGRAPH_FUNCTION_END
     }
 
@@ -122,6 +123,7 @@ protected:
     }
 
 private:
+    std::atomic<bool> finished_ { false };                                    // 线程函数是否已经执行完毕
     CSec cur_ttl_ { 0 };                                                      // 当前最大生存周期
 
     friend class UThreadPool;
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 68c3b13..9138d80 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -201,18 +201,21 @@ CStatus UThreadPool::releaseSecondaryThread(CInt size) {
     // 先将所有已经结束的，给删掉
     CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-        !(*iter)->done_ ? secondary_threads_.erase(iter++) : iter++;
+        (*iter)->finished_ ? secondary_threads_.erase(iter++) : iter++;
     }
 
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > static_cast<CInt>(secondary_threads_.size())),    \
+    const CInt left = calcSecondarySize();
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > left),    \
                                             "cannot release [" + std::to_string(size) + "] secondary thread,"    \
-                                            + "only [" + std::to_string(secondary_threads_.size()) + "] left.")
+                                            + "only [" + std::to_string(left) + "] left.")
 
     // 再标记几个需要删除的信息
     for (auto iter = secondary_threads_.begin();
-         iter != secondary_threads_.end() && size-- > 0; ) {
-        (*iter)->done_ = false;
-        ++iter;
+         iter != secondary_threads_.end() && size > 0; ++iter) {
+        if ((*iter)->done_) {
+            (*iter)->done_ = false;
+            size--;
+        }
     }
     CGRAPH_FUNCTION_END
 }
@@ -240,7 +243,7 @@ CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
     CGRAPH_LOCK_GUARD lock(st_mutex_);
-    const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
+    const int leftSize = config_.max_thread_size_ - config_.default_thread_size_ - calcSecondarySize();
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
     for (int i = 0; i < realSize; i++) {
@@ -254,11 +257,16 @@ CStatus UThreadPool::createSecondaryThread(const CInt size) {
 }
 
 
+CInt UThreadPool::calcSecondarySize() const {
+    return static_cast<CInt>(std::count_if(secondary_threads_.begin(), secondary_threads_.end(),
+                             [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; }));
+}
+
+
 CVoid UThreadPool::pushPriorityTask(UTask&& task, const int priority) {
     const auto exist = [this] {
         CGRAPH_LOCK_GUARD lock(st_mutex_);
-        return std::any_of(secondary_threads_.begin(), secondary_threads_.end(),
-                           [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; });
+        return calcSecondarySize() > 0;
     };
 
     if (!exist()) {
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 01fcc37..9404bf2 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -205,6 +205,12 @@ protected:
      */
     CVoid pushPriorityTask(UTask&& task, int priority);
 
+    /**
+     * 没有被释放的辅助线程的个数。需要在持有 st_mutex_ 的时候调用
+     * @return
+     */
+    CInt calcSecondarySize() const;
+
     CGRAPH_NO_ALLOWED_COPY(UThreadPool)
 
 private:
-- 
2.43.0


From e2f5b09d02d65e7f0b9dd621029a972aeb98b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 26/56] fix: the monitor does not release the secondary thread
 it has just created

With a ttl of one span the thread was judged idle before it had started, so a task that waits for a
secondary thread was never executed.
---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 25 +++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 9138d80..84606b4 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -291,6 +291,20 @@ CVoid UThreadPool::monitor() {
             }
         }
 
+        // 等待线程退出的时候，不持有锁
+        std::list<std::unique_ptr<UThreadSecondary>> frozen;
+        {
+            CGRAPH_LOCK_GUARD lock(st_mutex_);
+            // 判断 secondary 线程是否需要退出。在新建线程之前判断，避免刚创建的线程直接退出
+            for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
+                const auto cur = iter++;
+                if ((*cur)->freeze()) {
+                    frozen.splice(frozen.end(), secondary_threads_, cur);
+                }
+            }
+        }
+        frozen.clear();
+
         // 如果 primary线程都在执行，则表示忙碌
         const bool busy = !primary_threads_.empty() && std::all_of(primary_threads_.begin(), primary_threads_.end(),
                                 [](UThreadPrimaryPtr ptr) { return ptr && ptr->is_running_.load(std::memory_order_relaxed); });
@@ -299,17 +313,6 @@ CVoid UThreadPool::monitor() {
         if (busy || !priority_task_queue_.empty()) {
             createSecondaryThread(1);
         }
-
-        // 等待线程退出的时候，不持有锁
-        std::list<std::unique_ptr<UThreadSecondary>> frozen;
-        CGRAPH_LOCK_GUARD lock(st_mutex_);
-        // 判断 secondary 线程是否需要退出
-        for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-            const auto cur = iter++;
-            if ((*cur)->freeze()) {
-                frozen.splice(frozen.end(), secondary_threads_, cur);
-            }
-        }
     }
 }
 
-- 
2.43.0


From aa916aa931494c0d2fd62857bfed189e098b5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 27/56] fix: USemaphore::wait() waits for a signal

Its condition held as soon as the counter was decremented, so it never waited (and waited for ever
once two signals had been given). The standard headers were included inside of the namespace.
---
 src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
index 5247a9a..b656230 100644
--- a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
+++ b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
@@ -9,13 +9,13 @@
 #ifndef CGRAPH_USEMAPHORE_H
 #define CGRAPH_USEMAPHORE_H
 
-CGRAPH_NAMESPACE_BEGIN
-
 #include <mutex>
 #include <condition_variable>
 
 #include "../UThreadObject.h"
 
+CGRAPH_NAMESPACE_BEGIN
+
 class USemaphore : public UThreadObject {
 public:
     /**
@@ -24,9 +24,7 @@ public:
     CVoid signal() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
         cnt_++;
-        if (cnt_ <= 0) {
-            cv_.notify_one();
-        }
+        cv_.notify_one();
     }
 
     /**
@@ -34,14 +32,14 @@ public:
      */
     CVoid wait() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
-        cnt_--;
         cv_.wait(lk, [this] {
-            return cnt_ < 0;
+            return cnt_ > 0;
         });
+        cnt_--;
     }
 
 private:
-    CInt cnt_ { 0 };    // 记录当前的次数
+    CInt cnt_ { 0 };    // 记录尚未被消费的信号个数
     std::mutex mutex_;
     std::condition_variable cv_;
 };
-- 
2.43.0


From 27254f2e39d71eb390c5cb6eabad5639ca4cbc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 28/56] fix: ULockFreeRingBufferQueue compiles when it is used,
 and holds as many values as its capacity

A value was assigned to the unique_ptr of its slot and the other way round.
---
 .../ThreadPool/Queue/ULockFreeRingBufferQueue.h      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
index a5efc7a..413e71e 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
@@ -11,6 +11,7 @@
 
 #include <atomic>
 #include <memory>
+#include <vector>
 
 #include "UQueueObject.h"
 
@@ -22,7 +23,7 @@ public:
     explicit ULockFreeRingBufferQueue() {
         head_ = 0;
         tail_ = 0;
-        ring_buffer_.resize(CAPACITY);
+        ring_buffer_.resize(CAPACITY + 1);    // 多申请一个位置，用于区分 满 和 空 的状态
     }
 
     ~ULockFreeRingBufferQueue() override {
@@ -35,14 +36,14 @@ public:
      */
     CVoid push(T&& value) {
         int curTail = tail_.load(std::memory_order_relaxed);
-        const int nextTail = (curTail + 1) % CAPACITY;
+        const int nextTail = (curTail + 1) % (CAPACITY + 1);
 
         while (nextTail == head_.load(std::memory_order_acquire)) {
             // 队列已满，等待其他线程出队
             CGRAPH_YIELD();
         }
 
-        ring_buffer_[curTail] = std::move(value);
+        ring_buffer_[curTail] = c_make_unique<T>(std::move(value));
         tail_.store(nextTail, std::memory_order_release);
     }
 
@@ -58,9 +59,10 @@ public:
             return false;
         }
 
-        value = std::move(ring_buffer_[curHead]);
+        value = std::move(*ring_buffer_[curHead]);
+        ring_buffer_[curHead].reset();
 
-        const int nextHead = (curHead + 1) % CAPACITY;
+        const int nextHead = (curHead + 1) % (CAPACITY + 1);
         head_.store(nextHead, std::memory_order_release);
         return true;
     }
-- 
2.43.0


From 112f6968d4e7a476a85e915550f46d55ea429516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 29/56] fix: the size of a pipeline manager does not change
 while a pipeline is handed out

getSize() added the sizes of the two lists without the lock, between the two halves of fetch() or release().
---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 1 +
 src/GraphCtrl/GraphPipeline/GPipelineManager.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index d4f7a6b..1752997 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -131,6 +131,7 @@ CStatus GPipelineManager::remove(GPipelinePtr ptr) {
 
 
 CSize GPipelineManager::getSize() const {
+    CGRAPH_LOCK_GUARD lk(mutex_);
     CSize size = free_list_.size() + used_list_.size();
     return size;
 }
diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.h b/src/GraphCtrl/GraphPipeline/GPipelineManager.h
index aa8bbd9..64a226c 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.h
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.h
@@ -55,7 +55,7 @@ public:
 private:
     GPipelinePtrList free_list_;                // 空闲的 pipeline信息
     GPipelinePtrList used_list_;                // 被用的 pipeline信息
-    std::mutex mutex_;                          // 控制 free 和 used 之间转移的互斥量
+    mutable std::mutex mutex_;                       // 控制 free 和 used 之间转移的互斥量
 };
 
 CGRAPH_NAMESPACE_END
-- 
2.43.0


From 74a4a107ad6ded283289a09c731f4e970c8fe07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 30/56] fix: a pipeline whose run throws is given back to its
 manager

It stayed in the list of used ones for ever, so that the manager could neither use it again nor be destroyed.
---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index 1752997..0ae90a0 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -41,7 +41,13 @@ CStatus GPipelineManager::run() {
      * 这里执行，是外部线程执行的。获取的status就是这个pipeline run的结果
      * 无论如何，执行完成之后，都要将pipeline返回到 free_list 中去
      */
-    status = pipeline->run();
+    try {
+        status = pipeline->run();
+    } catch (...) {
+        // 执行过程中抛出异常的 pipeline，也需要归还
+        release(pipeline);
+        throw;
+    }
     status += release(pipeline);
 
     CGRAPH_FUNCTION_END
-- 
2.43.0


From 7c8722f3c24bf4ea96a4cbca2f82f7414fdf7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 31/56] fix: a thread pool without threads executes its tasks
 in the calling thread

---
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 7d20bb0..09cf92a 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -52,6 +52,12 @@ auto UThreadPool::commitWithPriority(const FunctionType& func, int priority)
 
 template<typename FunctionType>
 CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
+    if (unlikely(0 == config_.max_thread_size_)) {
+        // 没有任何线程（比如 pipeline 被设置为 serial 的时候），直接在当前线程执行
+        task();
+        return;
+    }
+
     const CIndex realIndex = dispatch(index);
 
     if (likely(realIndex >= 0 && realIndex < config_.default_thread_size_)) {
-- 
2.43.0


From c9f7e42e17415a91589196f75f47ff3f3f23bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 32/56] fix: makeSerial refuses a group with a member that has
 a time limit

---
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index a4deac3..d633592 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -94,7 +94,8 @@ CBool GGroup::isSerializable() const {
      */
     return std::all_of(children_.begin(), children_.end(),
                        [](GElementPtr element) {
-        return element->isSerializable();
+        // 设置了超时时间的 element，需要异步执行
+        return element->isSerializable() && !element->isAsync();
     });
 }
 
-- 
2.43.0


From 31f8120cd0dc34090baba5656774f850eed7e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 33/56] fix: the parameters of a pipeline can be loaded again
 after save()

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp     | 3 ++-
 src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index edc8813..c43464e 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -39,7 +39,8 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(_GStageStorage,
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GParamStorage,
     UREFL_DECLARE_FIELD(_GParamStorage, key_, 1),
-    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2)
+    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2),
+    UREFL_DECLARE_FIELD(_GParamStorage, backtrace_, 3)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPassedParamStorage,
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
index 75d6e02..74a92c8 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
@@ -67,6 +67,7 @@ struct _GParamStorage : public _GStorageBasic {
     explicit _GParamStorage(const std::string& key, CBool backtrace, const std::string& clz) {
         key_ = key;
         backtrace_ = backtrace;
+        clz_name_ = clz;
     }
 
     std::string key_ {};
-- 
2.43.0


From ab3f2cdbf9cd328fc1b9d7b136004fad1e6c018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 34/56] fix: save() keeps every field of the thread pool
 configuration

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index c43464e..4a1de65 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -86,7 +86,9 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(UThreadPoolConfig,
     UREFL_DECLARE_FIELD(UThreadPoolConfig, secondary_thread_priority_, 16),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, bind_cpu_enable_, 17),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, batch_task_enable_, 18),
-    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19)
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, pipeline_wait_busy_epoch_, 20),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, deliver_running_primary_thread_enable_, 21)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPipelineStorage,
-- 
2.43.0


From 6b20c04a09ae145b9ba1759f178918092052f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 35/56] fix: load() hands the members of groups to the pipeline
 as well

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 4a1de65..6265767 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -271,7 +271,9 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
         if (cur.belong_session_.empty()) {
             pipeline->innerRegister(element, {}, cur.name_, cur.loop_);
         } else {
+            // group 内部的 element，也需要由 pipeline 来统一管理和释放
             element->belong_ = eleCache[cur.belong_session_];
+            pipeline->repository_.insert(element);
         }
 
         status += loadAspect(element, cur.aspect_storages_);
-- 
2.43.0


From e0ea4542b3a73b5bf0db99cbf6a5e119a203306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 36/56] fix: save() keeps the engine of a pipeline and of its
 regions

---
 src/GraphCtrl/GraphElement/GElementManager.h           | 2 ++
 src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.h    | 1 +
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp     | 9 +++++++--
 src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h | 8 ++++++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.h b/src/GraphCtrl/GraphElement/GElementManager.h
index 7e22a44..d4d74cb 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.h
+++ b/src/GraphCtrl/GraphElement/GElementManager.h
@@ -116,6 +116,8 @@ private:
     friend class GPerf;
     friend class GElementRepository;
     friend class CAllocator;
+    friend class GStorage;
+    friend struct _GElementStorage;
 };
 
 using GElementManagerPtr = GElementManager *;
diff --git a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.h b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.h
index 8d55e97..de3caf8 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.h
+++ b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.h
@@ -58,6 +58,7 @@ private:
     friend class CAllocator;
     friend class GStorageFactory;
     friend class GTrimOptimizer;
+    friend struct _GElementStorage;
 };
 
 using GRegionPtr = GRegion *;
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 6265767..3c714f6 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -64,7 +64,8 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(_GElementStorage,
     UREFL_DECLARE_FIELD(_GElementStorage, element_type_, 13),
     UREFL_DECLARE_FIELD(_GElementStorage, children_, 14),
     UREFL_DECLARE_FIELD(_GElementStorage, aspect_storages_, 15),
-    UREFL_DECLARE_FIELD(_GElementStorage, eparam_storages_, 16)
+    UREFL_DECLARE_FIELD(_GElementStorage, eparam_storages_, 16),
+    UREFL_DECLARE_FIELD(_GElementStorage, engine_type_, 17)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(UThreadPoolConfig,
@@ -97,7 +98,8 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(_GPipelineStorage,
     UREFL_DECLARE_FIELD(_GPipelineStorage, param_storages_, 3),
     UREFL_DECLARE_FIELD(_GPipelineStorage, daemon_storages_, 4),
     UREFL_DECLARE_FIELD(_GPipelineStorage, stage_storages_, 5),
-    UREFL_DECLARE_FIELD(_GPipelineStorage, thread_pool_config_, 6)
+    UREFL_DECLARE_FIELD(_GPipelineStorage, thread_pool_config_, 6),
+    UREFL_DECLARE_FIELD(_GPipelineStorage, engine_type_, 7)
 )
 
 CGRAPH_INTERNAL_NAMESPACE_END
@@ -157,6 +159,7 @@ CStatus GStorage::load(GPipelinePtr pipeline, const std::string& path) {
 CStatus GStorage::buildPipelineStorage(GPipeline* pipeline, _GPipelineStorage& storage) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(pipeline,
+                           pipeline->element_manager_,
                            pipeline->event_manager_,
                            pipeline->param_manager_,
                            pipeline->daemon_manager_,
@@ -188,6 +191,7 @@ CStatus GStorage::buildPipelineStorage(GPipeline* pipeline, _GPipelineStorage& s
         storage.stage_storages_.emplace_back(key, threshold, clz);
     }
     storage.thread_pool_config_ = pipeline->schedule_.config_;
+    storage.engine_type_ = pipeline->element_manager_->engine_type_;
     CGRAPH_FUNCTION_END
 }
 
@@ -242,6 +246,7 @@ CStatus GStorage::loadBuffer(GPipelinePtr pipeline, char* buffer, CSize size) {
     CGRAPH_FUNCTION_CHECK_STATUS
 
     pipeline->setUniqueThreadPoolConfig(storage.thread_pool_config_);
+    pipeline->setGEngineType(storage.engine_type_);
 
     CGRAPH_FUNCTION_END
 }
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
index 74a92c8..f817084 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
@@ -101,6 +101,7 @@ struct _GElementStorage : public _GStorageBasic {
     std::vector<_GElementStorage> children_ {};
     std::vector<_GAspectStorage> aspect_storages_ {};
     std::vector<_GPassedParamStorage> eparam_storages_ {};
+    GEngineType engine_type_ { GEngineType::DYNAMIC };    // 仅针对 region 类型有效
 
     explicit _GElementStorage() = default;
 
@@ -131,6 +132,9 @@ struct _GElementStorage : public _GStorageBasic {
         for (const auto& lp : element->local_params_) {
             eparam_storages_.emplace_back(lp.first, typeid(*(lp.second)).name());
         }
+        if (const auto* region = dynamic_cast<const GRegion*>(element)) {
+            engine_type_ = region->manager_->engine_type_;
+        }
     }
 
     /**
@@ -151,6 +155,9 @@ struct _GElementStorage : public _GStorageBasic {
         if (element->isGNode()) {
             element->setMacro(is_marco_);
         }
+        if (auto* region = dynamic_cast<GRegionPtr>(element)) {
+            region->setGEngineType(engine_type_);
+        }
 
         CGRAPH_FUNCTION_END
     }
@@ -165,6 +172,7 @@ struct _GPipelineStorage : public CStruct {
     std::vector<_GDaemonStorage> daemon_storages_ {};         // 记录pipeline中所有 daemon 的信息
     std::vector<_GStageStorage> stage_storages_ {};           // 记录pipeline中所有 stage 的信息
     UThreadPoolConfig thread_pool_config_ {};                 // 记录线程池配置信息
+    GEngineType engine_type_ { GEngineType::DYNAMIC };        // 记录执行引擎类型
 };
 
 CGRAPH_NAMESPACE_END
-- 
2.43.0


From 3fde0e5c372a6d19cab7093e64a18cfaeae66887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 37/56] fix: load() refuses a file that is not complete instead
 of reading beyond it

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 7 ++++++-
 src/UtilsCtrl/Reflection/UReflectionSession.h      | 8 ++++++++
 src/UtilsCtrl/Reflection/UReflectionType.h         | 1 +
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 3c714f6..19a1acd 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -234,7 +234,12 @@ CStatus GStorage::loadBuffer(GPipelinePtr pipeline, char* buffer, CSize size) {
 
     _GPipelineStorage storage {};
     auto refl = internal::UReflection<_GPipelineStorage>();
-    refl.read(storage, (CUCharPtr)buffer, size);
+    try {
+        refl.read(storage, (CUCharPtr)buffer, size);
+    } catch (const CException& ex) {
+        // 文件内容不完整
+        CGRAPH_RETURN_ERROR_STATUS(ex.what())
+    }
 
     status += loadElement(pipeline, storage);    // element 中间包含校验。如果校验失败，立刻退出即可
     CGRAPH_FUNCTION_CHECK_STATUS
diff --git a/src/UtilsCtrl/Reflection/UReflectionSession.h b/src/UtilsCtrl/Reflection/UReflectionSession.h
index d92f7d2..43ab790 100644
--- a/src/UtilsCtrl/Reflection/UReflectionSession.h
+++ b/src/UtilsCtrl/Reflection/UReflectionSession.h
@@ -24,6 +24,7 @@ public:
     template<class T>
     void getValueAndOffset(T &value) {
         constexpr size_t len = sizeof(T);
+        checkLeft(len);
         memcpy(&value, data_ + offset_, len);
         offset_ += len;
     }
@@ -34,6 +35,7 @@ public:
     }
 
     void getStringAndOffset(std::string &value, const size_t len) {
+        checkLeft(len);
         value.assign((CCharPtr)(data_ + offset_), len);
         offset_ += len;
     }
@@ -57,6 +59,12 @@ public:
         memcpy(data_ + offset, value, len);
     }
 
+    void checkLeft(const size_t len) const {
+        // 数据不完整的情况下，不可以越界读取
+        CGRAPH_THROW_EXCEPTION_BY_CONDITION(offset_ > len_ || len > len_ - offset_,
+                                            "reflection data is not complete")
+    }
+
     [[nodiscard]] CUCharPtr getCurrentPos() const {
         return data_ + offset_;
     }
diff --git a/src/UtilsCtrl/Reflection/UReflectionType.h b/src/UtilsCtrl/Reflection/UReflectionType.h
index 7d80763..5edcf4b 100644
--- a/src/UtilsCtrl/Reflection/UReflectionType.h
+++ b/src/UtilsCtrl/Reflection/UReflectionType.h
@@ -185,6 +185,7 @@ void reflRead(UReflSession &session, T &value) {
 
         size_t size = 0;
         session.getValueAndOffset(size);
+        session.checkLeft(size);
         UReflSession subSess(session.getCurrentPos(), size);
         while (!subSess.isEmpty()) {
             auto elem = container_element_t<T>{};
-- 
2.43.0


From ffeb1a298663c441de502b81c69a62617c3bef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 38/56] fix: USmallVector takes its own elements and elements
 that are no plain data

---
 src/UtilsCtrl/Container/USmallVector.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/Container/USmallVector.h b/src/UtilsCtrl/Container/USmallVector.h
index 9f818c4..337111b 100644
--- a/src/UtilsCtrl/Container/USmallVector.h
+++ b/src/UtilsCtrl/Container/USmallVector.h
@@ -9,6 +9,7 @@
 #ifndef CGRAPH_USMALLVECTOR_H
 #define CGRAPH_USMALLVECTOR_H
 
+#include <algorithm>
 #include <vector>
 #include <memory>
 #include <cstring>
@@ -46,12 +47,15 @@ public:
             T* curData = new T[curCapacity];
             CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(curData)
 
+            curData[cur_index_] = val;    // val 可能是自身的元素，需要在旧数据失效之前写入
             std::move(data_, data_ + capacity_, curData);
             CGRAPH_DELETE_PTR_ARRAY(data_)
             data_ = curData;
             capacity_ = curCapacity;
+        } else {
+            data_[cur_index_] = val;
         }
-        data_[cur_index_++] = std::move(val);
+        cur_index_++;
     }
 
     CSize size() const {
@@ -64,8 +68,8 @@ public:
 
     CVoid clear() {
         // 这里只清空内容，不回收内存信息
+        std::fill(data_, data_ + cur_index_, T());
         cur_index_ = 0;
-        memset(data_, 0, sizeof(T) * capacity_);
     }
 
     CBool remove(const T& val) {
@@ -141,6 +145,8 @@ public:
     T& operator[](CSize index) { return data_[index]; }
     const T& operator[](CSize index) const { return data_[index]; }
 
+    CGRAPH_NO_ALLOWED_COPY(USmallVector)
+
 private:
     T* data_ { nullptr };          // 存放具体数据
     CSize cur_index_ { 0 };        // 当前元素数量
-- 
2.43.0


From 0f46564b0f0c5cfe5969d2884148842f21535ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:07 +0000
Subject: [PATCH 39/56] fix: the double-checked creation of USingleton is
 ordered

---
 src/UtilsCtrl/Singleton/USingleton.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/UtilsCtrl/Singleton/USingleton.h b/src/UtilsCtrl/Singleton/USingleton.h
index 749fac0..31f3dcd 100644
--- a/src/UtilsCtrl/Singleton/USingleton.h
+++ b/src/UtilsCtrl/Singleton/USingleton.h
@@ -9,6 +9,9 @@
 #ifndef CGRAPH_USINGLETON_H
 #define CGRAPH_USINGLETON_H
 
+#include <atomic>
+#include <mutex>
+
 #include "USingletonDefine.h"
 #include "../UtilsObject.h"
 
@@ -43,8 +46,7 @@ public:
             create();
         }
 
-        T* handle = handle_;
-        return handle;
+        return handle_.load(std::memory_order_acquire);
     }
 
 protected:
@@ -71,10 +73,11 @@ protected:
      * @return
      */
     CVoid create() {
-        if (unlikely(nullptr == handle_)) {
+        if (unlikely(nullptr == handle_.load(std::memory_order_acquire))) {
             CGRAPH_LOCK_GUARD lock(lock_);
-            if (nullptr == handle_) {
-                handle_ = CGRAPH_SAFE_MALLOC_COBJECT(T)
+            if (nullptr == handle_.load(std::memory_order_relaxed)) {
+                T* handle = CGRAPH_SAFE_MALLOC_COBJECT(T)
+                handle_.store(handle, std::memory_order_release);
             }
         }
     }
@@ -86,14 +89,15 @@ protected:
     CStatus clear() {
         CGRAPH_FUNCTION_BEGIN
         CGRAPH_LOCK_GUARD lock(lock_);
-        CGRAPH_DELETE_PTR(handle_)
+        T* handle = handle_.exchange(nullptr);
+        CGRAPH_DELETE_PTR(handle)
         CGRAPH_FUNCTION_END
     }
 
     CGRAPH_NO_ALLOWED_COPY(USingleton);
 
 private:
-    T* handle_ { nullptr };             // 对应的单例句柄信息
+    std::atomic<T *> handle_ { nullptr };    // 对应的单例句柄信息
     std::mutex lock_;
 };
 
-- 
2.43.0


From 961bd8d6a1f35e7b80a3f2d29d4eea9dab25f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 40/56] fix: the cosine distance of vectors of different
 dimension is an error when checked

---
 src/UtilsCtrl/Distance/Common/UCosineDistance.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/UtilsCtrl/Distance/Common/UCosineDistance.h b/src/UtilsCtrl/Distance/Common/UCosineDistance.h
index 75ee539..e6e630a 100644
--- a/src/UtilsCtrl/Distance/Common/UCosineDistance.h
+++ b/src/UtilsCtrl/Distance/Common/UCosineDistance.h
@@ -31,6 +31,19 @@ public:
         result = result / (std::sqrt(val1) * std::sqrt(val2));
         CGRAPH_FUNCTION_END
     }
+
+
+    CStatus check(const TSrc* v1, const TSrc* v2, CSize dim1, CSize dim2, CVoidPtr ext) override {
+        CGRAPH_FUNCTION_BEGIN
+        CGRAPH_ASSERT_NOT_NULL(v1)
+        CGRAPH_ASSERT_NOT_NULL(v2)
+        if (dim1 != dim2 || 0 == dim1 * dim2) {
+            // 不相等，或者有任何一个值为0，则认为是异常
+            CGRAPH_RETURN_ERROR_STATUS("cosine distance dim error")
+        }
+
+        CGRAPH_FUNCTION_END
+    }
 };
 
 CGRAPH_NAMESPACE_END
-- 
2.43.0


From 248f2409460c75b9d5c033398c26eaa776faae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 41/56] fix: a copied or assigned CStatus has the text of its
 source as well

---
 src/CBasic/CStatus.h | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/CBasic/CStatus.h b/src/CBasic/CStatus.h
index d43e406..83e580a 100644
--- a/src/CBasic/CStatus.h
+++ b/src/CBasic/CStatus.h
@@ -42,29 +42,19 @@ public:
     }
 
     CSTATUS(const CSTATUS& status) {
-        if (status.error_code_ == error_code_) {
-            return;
-        }
-
         this->error_code_ = status.error_code_;
         this->error_info_ = status.error_info_;
     }
 
     CSTATUS(const CSTATUS&& status) noexcept {
-        if (status.error_code_ == error_code_) {
-            return;
-        }
-
         this->error_code_ = status.error_code_;
         this->error_info_ = status.error_info_;
     }
 
     CSTATUS& operator=(const CSTATUS& status) {
-        if (this->error_code_ != status.error_code_) {
-            // 如果status是正常的话，则所有数据保持不变
-            this->error_code_ = status.error_code_;
-            this->error_info_ = status.error_info_;
-        }
+        // 错误码相同的时候，错误信息也可能是不同的
+        this->error_code_ = status.error_code_;
+        this->error_info_ = status.error_info_;
         return (*this);
     }
 
-- 
2.43.0


From 28af375de2517e1e0e815731443c3b9f89a681a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 42/56] fix: perf() takes back what it added when the execution
 fails

---
 src/GraphCtrl/GraphElement/GElement.cpp      |  1 -
 src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp | 25 +++++++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index d81f32f..ba72343 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -531,7 +531,6 @@ CBool GElement::isSerializable() const {
 
 CStatus GElement::popLastAspect() {
     CGRAPH_FUNCTION_BEGIN
-    CGRAPH_ASSERT_INIT(false)
     CGRAPH_ASSERT_NOT_NULL(aspect_manager_)
 
     status = aspect_manager_->popLast();
diff --git a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
index d670a1a..d634fe1 100644
--- a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
@@ -20,16 +20,21 @@ CStatus GPerf::perf(GPipelinePtr pipeline, std::ostream& oss) {
     status = inject(pipeline);
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status = pipeline->process();
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = markLongestPath(pipeline);
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = pipeline->dump(oss);
-    CGRAPH_FUNCTION_CHECK_STATUS
+    // 无论执行成功与否，都需要恢复 pipeline 原有的信息
+    try {
+        status = pipeline->process();
+        if (!status.isErr()) {
+            status = markLongestPath(pipeline);
+        }
+        if (!status.isErr()) {
+            status = pipeline->dump(oss);
+        }
+    } catch (const CException&) {
+        recover(pipeline);
+        throw;
+    }
 
-    status = recover(pipeline);
+    status += recover(pipeline);
     CGRAPH_FUNCTION_CHECK_STATUS
 
     CGRAPH_FUNCTION_END
@@ -40,6 +45,8 @@ CStatus GPerf::inject(GPipelinePtr pipeline) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(pipeline)
 
+    // 确保添加和恢复的，是同一批 element
+    pipeline->repository_.fetchAll(pipeline->element_manager_);
     const CFMSec now = CGRAPH_GET_CURRENT_ACCURATE_MS();
     for (auto* cur : pipeline->repository_.elements_) {
         /**
-- 
2.43.0


From 9dda99d67d65d4ec756d525b821dd74ff2a22d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 43/56] fix: process() destroys the pipeline when a run throws

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index a72a1f4..9acfd94 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -142,7 +142,12 @@ CStatus GPipeline::process(CSize runTimes) {
          * 2. 执行结果正常
          * 3. 没有进入取消状态（两轮执行之间的 cancel 和 suspend，也不能被重置）
          */
-        status += runOnce();
+        try {
+            status += runOnce();
+        } catch (const CException&) {
+            destroy();    // 抛出异常的情况下，也需要恢复到未初始化的状态
+            throw;
+        }
     }
 
     status += destroy();
-- 
2.43.0


From b3d7effbd412496c1dde8e09d71a92adb8107699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:47 +0000
Subject: [PATCH 44/56] fix: dump() leaves the format of its stream as it was

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 9acfd94..d7f7452 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -231,6 +231,8 @@ CStatus GPipeline::resume() {
 CStatus GPipeline::dump(std::ostream& oss) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(element_manager_)
+    const auto flags = oss.flags();
+    const auto precision = oss.precision();
     oss << std::fixed << std::setprecision(2);    // 小数点最多展示2位数字
 
     oss << "\ndigraph CGraph {\n";
@@ -242,7 +244,9 @@ CStatus GPipeline::dump(std::ostream& oss) {
     }
 
     oss << "}\n\n";
-    std::cout.unsetf(std::ios::fixed);
+    // 恢复传入的流的格式信息
+    oss.flags(flags);
+    oss.precision(precision);
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 600890cab82d3e57b6e4cf935ead2b3c3a7eb445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 45/56] fix: perf() keeps the start of an element that starts
 at time 0

---
 src/GraphCtrl/GraphPipeline/_GPerf/GPerfAspect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GPerf/GPerfAspect.h b/src/GraphCtrl/GraphPipeline/_GPerf/GPerfAspect.h
index b20f7fc..24eca14 100644
--- a/src/GraphCtrl/GraphPipeline/_GPerf/GPerfAspect.h
+++ b/src/GraphCtrl/GraphPipeline/_GPerf/GPerfAspect.h
@@ -27,7 +27,7 @@ protected:
         CGRAPH_FUNCTION_BEGIN
 
         cur_start_ts_ = CGRAPH_GET_CURRENT_ACCURATE_MS();
-        if (0 == perf_info_->first_start_ts_) {
+        if (0 == perf_info_->loop_) {
             // 记录开始的时间信息，仅记录第一次运行到这个node的时间信息
             perf_info_->first_start_ts_ = (cur_start_ts_ - pipeline_start_ts_);
         }
-- 
2.43.0


From 7480cee10440b9f9ad0a7f09f87680cd1b39dee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 46/56] fix: a pipeline whose init() failed can be initialised
 again

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 15 ++++++++++++++-
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp   | 12 ++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index a3e1b40..578390f 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -33,10 +33,23 @@ CStatus GElementManager::init() {
 
     for (GElementPtr element : manager_elements_) {
         status = element->fatProcessor(CFunctionType::INIT);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (status.isErr()) {
+            break;
+        }
         element->is_init_ = true;
     }
 
+    if (status.isErr()) {
+        // 初始化失败的情况下，恢复已经初始化完成的 element，以便可以再次初始化
+        for (GElementPtr element : manager_elements_) {
+            if (element->is_init_) {
+                (void)element->fatProcessor(CFunctionType::DESTROY);
+                element->is_init_ = false;
+            }
+        }
+    }
+    CGRAPH_FUNCTION_CHECK_STATUS
+
     CGRAPH_FUNCTION_END
 }
 
diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index d633592..5f635c7 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -17,9 +17,21 @@ GGroup::GGroup() {
 CStatus GGroup::init() {
     CGRAPH_FUNCTION_BEGIN
 
+    GElementPtrArr initialized;
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
         status += element->fatProcessor(CFunctionType::INIT);
+        if (status.isErr()) {
+            break;
+        }
+        initialized.emplace_back(element);
+    }
+
+    if (status.isErr()) {
+        // 初始化失败的情况下，恢复已经初始化完成的 element，以便可以再次初始化
+        for (GElementPtr element : initialized) {
+            (void)element->fatProcessor(CFunctionType::DESTROY);
+        }
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From f9637428eb32095110f204ddc08795be0ef1374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 47/56] fix: destroy() is complete although an element fails in
 it

---
 src/GraphCtrl/GraphElement/GElementManager.cpp      |  5 +++--
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp        |  2 +-
 .../GraphElement/GGroup/GRegion/GRegion.cpp         |  4 +---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp           | 13 ++++++++-----
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 578390f..affbf10 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -58,12 +58,13 @@ CStatus GElementManager::destroy() {
     CGRAPH_FUNCTION_BEGIN
 
     for (GElementPtr element : manager_elements_) {
-        status = element->fatProcessor(CFunctionType::DESTROY);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        // 其中一个失败，不影响其他 element 的 destroy
+        status += element->fatProcessor(CFunctionType::DESTROY);
         element->is_init_ = false;
     }
 
     CGRAPH_DELETE_PTR(engine_)
+    CGRAPH_FUNCTION_CHECK_STATUS
     CGRAPH_FUNCTION_END
 }
 
diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index 5f635c7..2f18d9d 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -47,9 +47,9 @@ CStatus GGroup::destroy() {
         CGRAPH_ASSERT_NOT_NULL(element)
         status += element->fatProcessor(CFunctionType::DESTROY);
     }
-    CGRAPH_FUNCTION_CHECK_STATUS
 
     is_init_ = false;
+    CGRAPH_FUNCTION_CHECK_STATUS
     CGRAPH_FUNCTION_END
 }
 
diff --git a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
index 3f15a94..70d2691 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
@@ -39,10 +39,8 @@ CStatus GRegion::init() {
 
 CStatus GRegion::destroy() {
     CGRAPH_FUNCTION_BEGIN
-    status = manager_->destroy();
-    CGRAPH_FUNCTION_CHECK_STATUS
-
     is_init_ = false;
+    status = manager_->destroy();
     CGRAPH_FUNCTION_END
 }
 
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index d7f7452..929e485 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -116,15 +116,18 @@ CStatus GPipeline::destroy() {
     CStatus eventStatus = daemon_manager_->destroy();
     eventStatus += event_manager_->destroy();
     status += schedule_.destroy();
-    CGRAPH_FUNCTION_CHECK_STATUS
-
     status += eventStatus;
-    status += element_manager_->destroy();
+
+    // 线程池已经析构，无论是否有失败的情况，均不可以再次执行
+    is_init_ = false;
+    try {
+        status += element_manager_->destroy();
+    } catch (const CException& ex) {
+        status += CStatus(internal::STATUS_CRASH, ex.what());
+    }
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
     CGRAPH_FUNCTION_CHECK_STATUS
-
-    is_init_ = false;
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 2d74acb9ea957f2b862981c6d2cf84c6728f3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 48/56] fix: a refused description of an element leaves no
 trace in the graph

---
 src/GraphCtrl/GraphElement/GElement.cpp   |  8 +++--
 src/GraphCtrl/GraphPipeline/GPipeline.inl | 39 +++++++++++++++++------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index ba72343..02b3357 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -158,10 +158,14 @@ CStatus GElement::addDependGElements(const GElementPtrSet& elements) {
         CGRAPH_ASSERT_INIT(false)
     }
 
+    // 先判定全部的依赖信息均合法，再逐个添加，保证失败的时候，不会留下部分依赖关系
     for (GElementPtr element: elements) {
         CGRAPH_ASSERT_NOT_NULL(element)
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((element->belong_ != this->belong_),    \
         element->getName() + " cannot depend because not same belong info")
+    }
+
+    for (GElementPtr element: elements) {
         if (this == element) {
             continue;
         }
@@ -180,11 +184,11 @@ CStatus GElement::addElementInfo(const GElementPtrSet& depends,
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_INIT(false)
 
-    // 添加依赖的时候，可能会出现异常情况。故在这里提前添加 && 做判定
+    // 设置循环次数和添加依赖的时候，可能会出现异常情况。故在这里提前添加 && 做判定
+    this->setLoop(loop);
     status = this->addDependGElements(depends);
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    this->setLoop(loop);
     this->setName(name);
     CGRAPH_FUNCTION_END
 }
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index 0608759..4138967 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -50,6 +50,10 @@ CStatus GPipeline::registerGElement(GElementPPtr elementRef,
     }
 
     status = innerRegister(*elementRef, depends, name, loop);
+    if (status.isErr() && !std::is_base_of<GGroup, T>::value) {
+        // 注册失败的情况下，释放内部创建的信息
+        CGRAPH_DELETE_PTR(*elementRef)
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -87,6 +91,9 @@ CStatus GPipeline::registerGElement(GTemplateNodePtr<Args ...> *elementRef,
     CGRAPH_ASSERT_NOT_NULL(*elementRef)
 
     status = innerRegister(*elementRef, depends, CGRAPH_EMPTY, CGRAPH_DEFAULT_LOOP_TIMES);
+    if (status.isErr()) {
+        CGRAPH_DELETE_PTR(*elementRef)
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -127,8 +134,13 @@ TNode* GPipeline::createGNode(const GNodeInfo &info, Args&&... args) {
 
     auto* node = new(std::nothrow) TNode(std::forward<Args>(args)...);
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(node)
-    status = node->addElementInfo(info.dependence_, info.name_, info.loop_);
-    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
+    try {
+        status = node->addElementInfo(info.dependence_, info.name_, info.loop_);
+        CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
+    } catch (const CException&) {
+        delete node;
+        throw;
+    }
 
     repository_.insert(node);
     return node;
@@ -162,14 +174,23 @@ TGroup* GPipeline::createGGroup(const GElementPtrArr &elements,
                                         "createGGroup depends have nullptr.")
 
     auto* group = CGRAPH_SAFE_MALLOC_COBJECT(TGroup)
-    for (GElementPtr element : elements) {
-        status += group->addElement(element);
+    try {
+        for (GElementPtr element : elements) {
+            status += group->addElement(element);
+        }
+        CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
+
+        // 加入group的时候，是不设定manager信息的
+        status = group->addElementInfo(depends, name, loop);
+        CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
+    } catch (const CException&) {
+        // 创建失败的情况下，这些 element 不再属于这个 group
+        for (GElementPtr element : elements) {
+            element->belong_ = nullptr;
+        }
+        delete group;
+        throw;
     }
-    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
-
-    // 加入group的时候，是不设定manager信息的
-    status = group->addElementInfo(depends, name, loop);
-    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
 
     this->repository_.insert(group);
     return group;
-- 
2.43.0


From 23e7ae6424c3009964eb7d0e80c9788dab421cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 49/56] fix: an element does not depend on one of another
 pipeline

---
 src/GraphCtrl/GraphElement/GElement.cpp   | 3 +++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 02b3357..843a86d 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -163,6 +163,9 @@ CStatus GElement::addDependGElements(const GElementPtrSet& elements) {
         CGRAPH_ASSERT_NOT_NULL(element)
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((element->belong_ != this->belong_),    \
         element->getName() + " cannot depend because not same belong info")
+        // 如果二者均已注册，则需要注册在同一个 pipeline 中
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((nullptr != this->param_manager_ && nullptr != element->param_manager_  \
+        && this->param_manager_ != element->param_manager_), element->getName() + " cannot depend because not same pipeline")
     }
 
     for (GElementPtr element: elements) {
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 929e485..a813f0b 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -420,6 +420,15 @@ CStatus GPipeline::innerRegister(GElementPtr element, const GElementPtrSet &depe
     CGRAPH_ASSERT_NOT_NULL(element)
     CGRAPH_ASSERT_INIT(false)
 
+    // 不允许跟其他 pipeline 中的 element，有依赖关系
+    GElementPtrSet relations = depends;
+    for (GElementPtr cur : element->dependence_) { relations.insert(cur); }
+    for (GElementPtr cur : element->run_before_) { relations.insert(cur); }
+    for (GElementPtr cur : relations) {
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((nullptr != cur && nullptr != cur->param_manager_ && param_manager_ != cur->param_manager_),    \
+        cur->getName() + " is registered to another pipeline")
+    }
+
     const std::string& curName = name.empty() ? element->getName() : name;
     status = element->addElementInfo(depends, curName, loop);
     CGRAPH_FUNCTION_CHECK_STATUS
-- 
2.43.0


From ce073d6be787d9e623ba77a14c07789f5bd6d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:20 +0000
Subject: [PATCH 50/56] fix: CGRAPH_THROW_EXCEPTION_BY_STATUS evaluates its
 argument once

checkRunResult() was called a second time after it had reported an error, and
the exception carried the text of the second call (possibly none).
---
 src/CBasic/CFuncType.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CBasic/CFuncType.h b/src/CBasic/CFuncType.h
index 9a8cad6..e98f68f 100644
--- a/src/CBasic/CFuncType.h
+++ b/src/CBasic/CFuncType.h
@@ -74,8 +74,12 @@ enum class CFunctionType {
 
 /** 在异常状态的情况下，抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_STATUS(status)                        \
-    if (unlikely((status).isErr())) {                                   \
-        CGRAPH_THROW_EXCEPTION((status).getInfo()); }                   \
+    {                                                                   \
+        /** status 可能是函数调用，确保仅执行一次 */                             \
+        const CStatus& checkedStatus = (status);                        \
+        if (unlikely(checkedStatus.isErr())) {                          \
+            CGRAPH_THROW_EXCEPTION(checkedStatus.getInfo()); }          \
+    }                                                                   \
 
 /** 根据条件判断是否抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_CONDITION(cond, info)                 \
-- 
2.43.0


From d3fccfec347d82a462ad1a4f0962b5b3cf86393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 51/56] fix: an init() that fails leaves no part of the
 pipeline initialised

When a parameter, event, stage or element could not be initialised, the other
parts stayed initialised (and, after an element had failed, the stages were
even initialised afterwards); the next init() initialised them again without
destroy in between.
---
 src/GraphCtrl/GraphEvent/GEventManager.cpp | 12 +++++++++++
 src/GraphCtrl/GraphParam/GParamManager.cpp | 12 +++++++++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp  | 13 ++++++------
 src/GraphCtrl/GraphPipeline/GPipeline.h    |  8 ++++++++
 src/GraphCtrl/GraphPipeline/GPipeline.inl  | 24 ++++++++++++++++++++++
 src/GraphCtrl/GraphStage/GStageManager.h   | 12 +++++++++++
 6 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/src/GraphCtrl/GraphEvent/GEventManager.cpp b/src/GraphCtrl/GraphEvent/GEventManager.cpp
index 032f9fa..f145154 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.cpp
+++ b/src/GraphCtrl/GraphEvent/GEventManager.cpp
@@ -12,11 +12,23 @@ CGRAPH_NAMESPACE_BEGIN
 
 CStatus GEventManager::init() {
     CGRAPH_FUNCTION_BEGIN
+    std::vector<GEventPtr> inited;
     for (auto& iter : events_map_) {
         // fatInit 中包含了init()，和部分其他逻辑
         auto event = iter.second;
         event->setGParamManager(param_manager_);
         status += event->fatInit();
+        if (status.isErr()) {
+            break;
+        }
+        inited.emplace_back(event);
+    }
+
+    if (status.isErr()) {
+        // 初始化失败的情况下，恢复已经初始化完成的 event，以便可以再次初始化
+        for (auto* event : inited) {
+            (void)event->fatDestroy();
+        }
     }
     CGRAPH_FUNCTION_END
 }
diff --git a/src/GraphCtrl/GraphParam/GParamManager.cpp b/src/GraphCtrl/GraphParam/GParamManager.cpp
index 4cc087f..5dbe2d6 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.cpp
+++ b/src/GraphCtrl/GraphParam/GParamManager.cpp
@@ -22,6 +22,7 @@ GParamManager::~GParamManager() {
 
 CStatus GParamManager::init() {
     CGRAPH_FUNCTION_BEGIN
+    std::vector<GParamPtr> inited;
     for (auto& param : params_map_) {
         /**
          * 一般情况下，是不需要init的。需要注意init 和 setup的执行阶段的信息
@@ -30,6 +31,17 @@ CStatus GParamManager::init() {
          */
         CGRAPH_ASSERT_NOT_NULL(param.second);
         status += param.second->init();
+        if (status.isErr()) {
+            break;
+        }
+        inited.emplace_back(param.second);
+    }
+
+    if (status.isErr()) {
+        // 初始化失败的情况下，恢复已经初始化完成的 param，以便可以再次初始化
+        for (auto* param : inited) {
+            (void)param->destroy();
+        }
     }
     CGRAPH_FUNCTION_END
 }
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index a813f0b..8838cc6 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -41,12 +41,8 @@ CStatus GPipeline::init() {
     status += initEnv();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status += param_manager_->init();
-    status += event_manager_->init();
-    status += element_manager_->init();
-    status += stage_manager_->init();
-    CGRAPH_FUNCTION_CHECK_STATUS
-    status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
+    // daemon的初始化，需要晚于所有element的初始化
+    status += initManagers(param_manager_, event_manager_, element_manager_, stage_manager_, daemon_manager_);
     CGRAPH_FUNCTION_CHECK_STATUS
 
     is_init_ = true;
@@ -394,6 +390,11 @@ CStatus GPipeline::load(const std::string& path) {
 }
 
 
+CStatus GPipeline::initManagers() {
+    CGRAPH_EMPTY_FUNCTION
+}
+
+
 CStatus GPipeline::initEnv() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(event_manager_, element_manager_, stage_manager_)
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index cf936b6..bece847 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -426,6 +426,14 @@ private:
      */
     CStatus initEnv();
 
+    /**
+     * 依次初始化各个 manager。其中一个失败的时候，恢复在此之前已经初始化完成的，以便可以再次初始化
+     * @return
+     */
+    template<typename T, typename... TRest>
+    static CStatus initManagers(T* cur, TRest*... rest);
+    static CStatus initManagers();
+
     /**
      * 执行一次，不改变当前的（NORMAL，SUSPEND 或 CANCEL）状态
      * @return
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index 4138967..1488ec3 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -283,6 +283,30 @@ GPipelinePtr GPipeline::addGStage(const std::string& key, CInt threshold, TParam
     return this;
 }
 
+template<typename T, typename... TRest>
+CStatus GPipeline::initManagers(T* cur, TRest*... rest) {
+    CStatus status = cur->init();
+    if (status.isErr()) {
+        return status;    // 失败的 manager，会自行恢复
+    }
+
+    try {
+        status += initManagers(rest...);
+    } catch (const CException& ex) {
+        status += CStatus(internal::STATUS_CRASH, ex.what());
+    }
+
+    if (status.isErr()) {
+        try {
+            (void)cur->destroy();
+        } catch (const CException&) {
+            // 不影响其他部分的恢复
+            return status;
+        }
+    }
+    return status;
+}
+
 CGRAPH_NAMESPACE_END
 
 #endif //CGRAPH_GPIPELINE_INL
diff --git a/src/GraphCtrl/GraphStage/GStageManager.h b/src/GraphCtrl/GraphStage/GStageManager.h
index 58b0278..dfb9830 100644
--- a/src/GraphCtrl/GraphStage/GStageManager.h
+++ b/src/GraphCtrl/GraphStage/GStageManager.h
@@ -27,8 +27,20 @@ protected:
 
     CStatus init() override {
         CGRAPH_FUNCTION_BEGIN
+        std::vector<GStagePtr> inited;
         for (auto stage : stage_map_) {
             status += stage.second->init();
+            if (status.isErr()) {
+                break;
+            }
+            inited.emplace_back(stage.second);
+        }
+
+        if (status.isErr()) {
+            // 初始化失败的情况下，恢复已经初始化完成的 stage，以便可以再次初始化
+            for (auto* stage : inited) {
+                (void)stage->destroy();
+            }
         }
         CGRAPH_FUNCTION_END
     }
-- 
2.43.0


From f96ff3c6afd41edb89e5e37e4e01360bff28a0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:23 +0000
Subject: [PATCH 52/56] fix: an event nobody waits for is not executed after
 its pipeline is gone

---
 src/GraphCtrl/GraphEvent/GEvent.cpp | 12 ++++++++++++
 src/GraphCtrl/GraphEvent/GEvent.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/GraphCtrl/GraphEvent/GEvent.cpp b/src/GraphCtrl/GraphEvent/GEvent.cpp
index 155d202..11c4430 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.cpp
+++ b/src/GraphCtrl/GraphEvent/GEvent.cpp
@@ -6,6 +6,9 @@
 @Desc: 
 ***************************/
 
+#include <algorithm>
+#include <chrono>
+
 #include "GEvent.h"
 
 CGRAPH_NAMESPACE_BEGIN
@@ -35,6 +38,7 @@ CStatus GEvent::fatDestroy() {
 
     asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);    // 在 run 之外触发的部分
     asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
+    waitFutures(async_no_wait_futures_, async_no_wait_lock_);
     async_run_finish_futures_.clear();
     async_destroy_futures_.clear();
 
@@ -78,6 +82,14 @@ std::shared_future<CVoid> GEvent::asyncProcess(GEventAsyncStrategy strategy) {
     } else if (GEventAsyncStrategy::PIPELINE_DESTROY == strategy) {
         CGRAPH_LOCK_GUARD lock(async_destroy_lock_);
         async_destroy_futures_.emplace_back(future);
+    } else {
+        // 没有等待的时机，但线程池可能是共享的，在 event 被释放之前需要执行结束。已经结束的，不再需要记录
+        CGRAPH_LOCK_GUARD lock(async_no_wait_lock_);
+        async_no_wait_futures_.erase(std::remove_if(async_no_wait_futures_.begin(), async_no_wait_futures_.end(),
+                                                    [](const std::shared_future<CVoid>& cur) {
+            return std::future_status::ready == cur.wait_for(std::chrono::milliseconds(0));
+        }), async_no_wait_futures_.end());
+        async_no_wait_futures_.emplace_back(future);
     }
     return future;
 }
diff --git a/src/GraphCtrl/GraphEvent/GEvent.h b/src/GraphCtrl/GraphEvent/GEvent.h
index 2c3aa4b..d99acee 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.h
+++ b/src/GraphCtrl/GraphEvent/GEvent.h
@@ -79,10 +79,12 @@ private:
 private:
     std::vector<std::shared_future<CVoid>> async_run_finish_futures_ {};    // 异步执行的逻辑集合（pipeline run结束的时候）
     std::vector<std::shared_future<CVoid>> async_destroy_futures_ {};       // 异步执行的逻辑集合（pipeline destroy 的时候）
+    std::vector<std::shared_future<CVoid>> async_no_wait_futures_ {};       // 异步执行的逻辑集合（不等待，仅在释放之前需要执行结束）
     GEventParamPtr param_ { nullptr };                                      // 事件参数信息
 
     std::mutex async_run_finished_lock_;
     std::mutex async_destroy_lock_;
+    std::mutex async_no_wait_lock_;
 
     friend class GEventManager;
     friend class GStorage;
-- 
2.43.0


From 9d4cb4e29ab00f0c010565e711743096e56b2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:14 +0000
Subject: [PATCH 53/56] fix: a manager of pipelines can be initialised again
 after one of them failed

---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index 0ae90a0..b28de86 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -20,8 +20,20 @@ CStatus GPipelineManager::init() {
         CGRAPH_RETURN_ERROR_STATUS("used list status error")
     }
 
+    GPipelinePtrList inited;
     for (auto pipeline : free_list_) {
         status += pipeline->init();
+        if (status.isErr()) {
+            break;
+        }
+        inited.push_back(pipeline);
+    }
+
+    if (status.isErr()) {
+        // 初始化失败的情况下，恢复已经初始化完成的 pipeline，以便可以再次初始化
+        for (auto pipeline : inited) {
+            (void)pipeline->destroy();
+        }
     }
     CGRAPH_FUNCTION_CHECK_STATUS
     is_init_ = true;
@@ -64,9 +76,8 @@ CStatus GPipelineManager::destroy() {
     for (auto pipeline : free_list_) {
         status += pipeline->destroy();
     }
-    CGRAPH_FUNCTION_CHECK_STATUS
 
-    is_init_ = false;
+    is_init_ = false;    // 即使个别 pipeline 的 destroy 逻辑返回异常，也均已经结束
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 9528d8de135032b6624680927cf051c04b5ae9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 54/56] fix: a file with a class that is not registered leaves
 nothing in the pipeline that refuses it

---
 .../GraphPipeline/_GStroage/GStorage.cpp      | 24 +++++++++++++++++++
 .../GraphPipeline/_GStroage/GStorage.h        |  7 ++++++
 .../_GStroage/GStorageFactory.cpp             |  5 ++++
 .../GraphPipeline/_GStroage/GStorageFactory.h |  7 ++++++
 4 files changed, 43 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 19a1acd..3dc8d0f 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -241,6 +241,9 @@ CStatus GStorage::loadBuffer(GPipelinePtr pipeline, char* buffer, CSize size) {
         CGRAPH_RETURN_ERROR_STATUS(ex.what())
     }
 
+    status = checkType(storage);    // 在创建之前校验，避免加载失败的时候，pipeline 中残留部分信息
+    CGRAPH_FUNCTION_CHECK_STATUS
+
     status += loadElement(pipeline, storage);    // element 中间包含校验。如果校验失败，立刻退出即可
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -257,6 +260,27 @@ CStatus GStorage::loadBuffer(GPipelinePtr pipeline, char* buffer, CSize size) {
 }
 
 
+CStatus GStorage::checkType(const _GPipelineStorage& storage) {
+    CGRAPH_FUNCTION_BEGIN
+    const auto check = [&status] (const std::string& clzName) {
+        if (!GStorageFactory::isRegistered(clzName)) {
+            status += CStatus(clzName + " type do not register, please check");
+        }
+    };
+
+    for (const auto& cur : storage.element_storages_) {
+        check(cur.clz_name_);
+        for (const auto& aspect : cur.aspect_storages_) { check(aspect.clz_name_); }
+        for (const auto& param : cur.eparam_storages_) { check(param.clz_name_); }
+    }
+    for (const auto& event : storage.event_storages_) { check(event.clz_name_); }
+    for (const auto& param : storage.param_storages_) { check(param.clz_name_); }
+    for (const auto& daemon : storage.daemon_storages_) { check(daemon.clz_name_); }
+    for (const auto& stage : storage.stage_storages_) { check(stage.clz_name_); }
+    CGRAPH_FUNCTION_END
+}
+
+
 CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& storage) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(pipeline)
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.h
index 1ba809c..ef7922e 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.h
@@ -67,6 +67,13 @@ private:
      */
     static CStatus loadBuffer(GPipeline* pipeline, char* buffer, CSize size);
 
+    /**
+     * 校验全部类型是否均已注册
+     * @param storage
+     * @return
+     */
+    static CStatus checkType(const _GPipelineStorage& storage);
+
     /**
      * 加载 element 信息
      * @param pipeline
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.cpp
index b566fd6..f43d753 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.cpp
@@ -17,5 +17,10 @@ GraphObject* GStorageFactory::createByType(const std::string& typeName) {
     return (it == meta_types_.end()) ? nullptr : it->second();
 }
 
+
+CBool GStorageFactory::isRegistered(const std::string& typeName) {
+    return meta_types_.find(typeName) != meta_types_.end();
+}
+
 CGRAPH_NAMESPACE_END
 
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.h
index e887889..7bd79aa 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.h
@@ -51,6 +51,13 @@ protected:
      */
     static GraphObject* createByType(const std::string& typeName);
 
+    /**
+     * 判断 type 信息是否已经注册
+     * @param typeName
+     * @return
+     */
+    static CBool isRegistered(const std::string& typeName);
+
     explicit GStorageFactory() = default;
     ~GStorageFactory() override = default;
 
-- 
2.43.0


From 881bb93860a6f38f55b24df8d0f39cb7e8058f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:52 +0000
Subject: [PATCH 55/56] fix: registerGElement() refuses a group that is null or
 that is part of another group

---
 src/GraphCtrl/GraphPipeline/GPipeline.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index 1488ec3..628a263 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -31,11 +31,15 @@ CStatus GPipeline::registerGElement(GElementPPtr elementRef,
          * 2，未被注册到其他的pipeline中
          * 3，group 类型必须正确
          */
-        if ((*elementRef) != nullptr
-            && ((*elementRef)->isRegistered())) {
+        CGRAPH_ASSERT_NOT_NULL(*elementRef)
+        if ((*elementRef)->isRegistered()) {
             CGRAPH_RETURN_ERROR_STATUS("this group register duplicate")
         }
 
+        if (nullptr != (*elementRef)->belong_) {
+            CGRAPH_RETURN_ERROR_STATUS("this group belongs to another group")
+        }
+
         if (typeid(**elementRef) != typeid(T)) {
             CGRAPH_RETURN_ERROR_STATUS("register group type is not suitable")
         }
-- 
2.43.0


From d880991b5a6c268c26b18b30037c39bca7a86762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 56/56] fix: members of a group are initialised elements while
 the group is (spawn, configuration)

---
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index 2f18d9d..fa69be9 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -24,6 +24,7 @@ CStatus GGroup::init() {
         if (status.isErr()) {
             break;
         }
+        element->is_init_ = true;
         initialized.emplace_back(element);
     }
 
@@ -31,6 +32,7 @@ CStatus GGroup::init() {
         // 初始化失败的情况下，恢复已经初始化完成的 element，以便可以再次初始化
         for (GElementPtr element : initialized) {
             (void)element->fatProcessor(CFunctionType::DESTROY);
+            element->is_init_ = false;
         }
     }
     CGRAPH_FUNCTION_CHECK_STATUS
@@ -46,6 +48,7 @@ CStatus GGroup::destroy() {
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
         status += element->fatProcessor(CFunctionType::DESTROY);
+        element->is_init_ = false;
     }
 
     is_init_ = false;
-- 
2.43.0

