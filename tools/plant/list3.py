TP='src/UtilsCtrl/ThreadPool/'
PC=TP+'UThreadPool.cpp'; PI=TP+'UThreadPool.inl'; PR=TP+'Thread/UThreadPrimary.h'; SE=TP+'Thread/UThreadSecondary.h'; BA=TP+'Thread/UThreadBase.h'
AQ=TP+'Queue/UAtomicQueue.h'; WQ=TP+'Queue/UWorkStealingQueue.h'; PQ=TP+'Queue/UAtomicPriorityQueue.h'
L=[
("pool-destroy-keeps-queue","C24 C23",PC,"    task_queue_.clear();\n    priority_task_queue_.clear();\n    thread_record_map_","    priority_task_queue_.clear();\n    thread_record_map_"),
("pool-destroy-keeps-prio","C24 C25",PC,"    task_queue_.clear();\n    priority_task_queue_.clear();\n    thread_record_map_","    task_queue_.clear();\n    thread_record_map_"),
("pool-record-clear","C23 C24",PC,"    priority_task_queue_.clear();\n    thread_record_map_.clear();","    priority_task_queue_.clear();"),
("pool-secondary-left","C24 C13",PC,"config_.max_thread_size_ - config_.default_thread_size_ - calcSecondarySize();","config_.max_thread_size_ - config_.default_thread_size_ - static_cast<int>(secondary_threads_.size());"),
("pool-release-ge","C24 C13",PC,"CONDITION((size > left),","CONDITION((size >= left),"),
("pool-release-done","C24 C13",PC,"""        if ((*iter)->done_) {
            (*iter)->done_ = false;
            size--;
        }""","""        (*iter)->done_ = false;
        size--;"""),
("pool-release-finished-only","C24 C13",PC,"(*iter)->finished_ ? secondary","!(*iter)->done_ ? secondary"),
("pool-init-twice","C24",PC,"""    if (is_init_) {
        CGRAPH_FUNCTION_END
    }

    thread_record""","""    thread_record"""),
("pool-setconfig-init","C24",PC,"    CGRAPH_ASSERT_INIT(false)    // 初始化后，无法设置参数信息\n",""),
("pool-submit-init","C25",PC,"""submit(const UTaskGroup& taskGroup, const CMSec ttl) {
    CGRAPH_FUNCTION_BEGIN
    CGRAPH_ASSERT_INIT(true)""","""submit(const UTaskGroup& taskGroup, const CMSec ttl) {
    CGRAPH_FUNCTION_BEGIN"""),
("pool-submit-max","C25",PC,"std::min(taskGroup.getTtl(), ttl)","std::max(taskGroup.getTtl(), ttl)"),
("pool-submit-first-timeout","C25",PC,"case std::future_status::timeout: status += CStatus(\"thread status timeout\"); break;","case std::future_status::timeout: return CStatus(\"thread status timeout\");"),
("pool-index-plus","C23",PC,"primary_threads_[i]->thread_.get_id())] = i;","primary_threads_[i]->thread_.get_id())] = i + 1;"),
("pool-main-id","C23",PC,"    thread_record_map_[std::hash<std::thread::id>{}(std::this_thread::get_id())] = CGRAPH_MAIN_THREAD_ID;\n",""),
("pool-dispatch-deliver","C23",PC,"if (!config_.deliver_running_primary_thread_enable_\n","if (config_.deliver_running_primary_thread_enable_\n"),
("pool-dispatch-all","C23 C03",PC,"realIndex = CGRAPH_TRIGGER_ALL_THREAD_STRATEGY;","realIndex = config_.default_thread_size_;"),
("pool-prio-exist","C25 C24",PC,"""    if (exist()) {
        priority""","""    if (true) {
        priority"""),
("pool-prio-wakeup","C25 C03",PC,"""        task_queue_.push(std::move(task));    // 已经达到最大线程数，交给主线程执行
        (void)wakeupAllThread();""","""        task_queue_.push(std::move(task));"""),
("pool-monitor-busy-any","C24",PC,"const bool busy = !primary_threads_.empty() && std::all_of","const bool busy = !primary_threads_.empty() && std::any_of"),
("pool-monitor-prio","C24 C25",PC,"if (busy || !priority_task_queue_.empty()) {","if (busy) {"),
("pool-monitor-nolock","C24",PC,"""            CGRAPH_LOCK_GUARD lock(st_mutex_);
            // 判断""","""            // 判断"""),
("pool-create-nolock","C24 C13",PC,"""    CGRAPH_LOCK_GUARD lock(st_mutex_);
    const int leftSize""","""    const int leftSize"""),
("pool-release-nolock","C24 C13",PC,"""    CGRAPH_LOCK_GUARD lock(st_mutex_);
    for (auto iter""","""    for (auto iter"""),
("pool-monitor-span","C24",PC,"monitor_stop_ = false;\n        monitor_thread_","monitor_thread_"),
("pool-stop-nolock","C24",PC,"        CGRAPH_LOCK_GUARD lock(monitor_mutex_);\n        monitor_stop_ = true;","        monitor_stop_ = true;"),
("pool-exec-nowake","C03 C23",PI,"""        task_queue_.push(std::forward<FunctionType>(task));
        (void)wakeupAllThread();
    }
}


template<typename FunctionType>
CVoid UThreadPool::executeWithTid""","""        task_queue_.push(std::forward<FunctionType>(task));
    }
}


template<typename FunctionType>
CVoid UThreadPool::executeWithTid"""),
("pool-tid-nowake","C23",PI,"""        task_queue_.push(std::forward<FunctionType>(task));
        (void)wakeupAllThread();
    }
}

CGRAPH""","""        task_queue_.push(std::forward<FunctionType>(task));
    }
}

CGRAPH"""),
("pool-exec-bound","C23",PI,"realIndex >= 0 && realIndex < config_.default_thread_size_)) {\n        primary_threads_[realIndex]->push","realIndex >= 0 && realIndex <= config_.default_thread_size_ - 1 + (config_.max_thread_size_ > 2))) {\n        primary_threads_[realIndex % config_.default_thread_size_]->push"),
("base-wakeup-nolock","C03 C23",BA,"        CGRAPH_LOCK_GUARD lk(mutex_);    // 跟等待方使用同一把锁，确保通知不会落在\"检查条件\"和\"进入等待\"之间\n",""),
("base-wakeup-running","C03 C23",BA,"        is_running_ = true;\n        if (config_->batch_task","        if (config_->batch_task"),
("base-reset-nolock","C24 C03",BA,"            CGRAPH_UNIQUE_LOCK lk(mutex_);\n            done_ = false;","            done_ = false;"),
("base-pop-prio-first","C25",BA,"""        CBool result = pool_task_queue_->tryPop(task);
        if (!result && CGRAPH_THREAD_TYPE_SECONDARY == type_) {
            // 如果辅助线程没有获取到的话，还需要再尝试从长时间任务队列中，获取一次
            result = pool_priority_task_queue_->tryPop(task);
        }
        return result;""","""        return CGRAPH_THREAD_TYPE_SECONDARY == type_ ? pool_priority_task_queue_->tryPop(task) : pool_task_queue_->tryPop(task);"""),
("base-batch-prio","C25",BA,"tryPop(tasks, 1);    // 从","tryPop(tasks, config_->max_pool_batch_size_);    // 从"),
("base-runtasks-stop","C23",BA,"""        for (auto& task : tasks) {
            task();
        }
        total""","""        for (auto& task : tasks) {
            if (!done_) { break; }
            task();
        }
        total"""),
("prim-ready-epoch","C03 C23",PR,"return 0 == cur_empty_epoch_ || !wsq_.isEmpty() || !pool","return !wsq_.isEmpty() || !pool"),
("prim-ready-wsq","C03 C23",PR,"return 0 == cur_empty_epoch_ || !wsq_.isEmpty() || !pool","return 0 == cur_empty_epoch_ || !pool"),
("prim-ready-pool","C03 C23",PR,"|| !pool_task_queue_->empty() || !done_;","|| !done_;"),
("prim-ready-done","C24 C03",PR,"|| !pool_task_queue_->empty() || !done_;","|| !pool_task_queue_->empty();"),
("prim-notready","C03 C23",PR,"            if (!ready()) {\n                is_running_ = false;\n                cv_.wait_for(lk, std::chrono::milliseconds(config_->primary_thread_empty_interval_), ready);","            {\n                is_running_ = false;\n                cv_.wait_for(lk, std::chrono::milliseconds(config_->primary_thread_empty_interval_));"),
("prim-push-nolock","C03 C23",PR,"""        wsq_.push(std::move(task));
        {
            CGRAPH_LOCK_GUARD lk(mutex_);
            cur_empty_epoch_ = 0;
        }
        cv_.notify_one();""","""        wsq_.push(std::move(task));
        cur_empty_epoch_ = 0;
        cv_.notify_one();"""),
("prim-push-lockable","C03 C23",PR,"        if (enable && !lockable) {\n            {","        if (enable && lockable) {\n            {"),
("prim-steal-index","C23",PR,"auto target = (index_ + i + 1) % config_->default_thread_size_;","auto target = (index_ + i) % config_->default_thread_size_;"),
("prim-steal-batch-empty","C23",PR,"                if (result) {\n                    break;\n                }","                if (!result) {\n                    break;\n                }"),
("prim-pool-first","C23 C25",PR,"if (popTask(task) || stealTask(task) || popPoolTask(task)) {","if (popTask(task) || popPoolTask(task)) {"),
("sec-finished","C24 C13",SE,"        loopProcess();\n        finished_ = true;","        finished_ = true;\n        loopProcess();"),
("sec-wait-drop","C23 C24",SE,"        if (task) {\n            runTask(*task);","        if (task && done_) {\n            runTask(*task);"),
("sec-freeze-running","C24",SE,"return cur_ttl_ <= 0 && done_;","return cur_ttl_ <= 0;"),
("sec-freeze-min","C24",SE,"            cur_ttl_ = (std::min)(cur_ttl_, config_->secondary_thread_ttl_);\n",""),
("sec-freeze-lt","C24",SE,"return cur_ttl_ <= 0 && done_;","return cur_ttl_ < 0 && done_;"),
("aq-timeout-ready","C24 C26",AQ,"if (queue_.empty() || !ready_flag_) {","if (queue_.empty()) {"),
("aq-timeout-pred","C24 C26",AQ,"return (!queue_.empty()) || (!ready_flag_);","return !queue_.empty();"),
("aq-reset-one","C24",AQ,"        cv_.notify_all();","        cv_.notify_one();"),
("aq-setup-flag","C24",AQ,"            ready_flag_ = true;\n","            ready_flag_ = ready_flag_;\n"),
("aq-push-notify","C26 C23",AQ,"            CGRAPH_YIELD();\n        }\n        cv_.notify_one();","            CGRAPH_YIELD();\n        }"),
("aq-batch-ge","C26 C23",AQ,"maxPoolBatchSize-- > 0","maxPoolBatchSize-- >= 0"),
("aq-recheck","C26 C23",AQ,"""            if (!queue_.empty()) {
                value = std::move(*queue_.front());
                queue_.pop();
                result = true;
            }
            mutex_.unlock();""","""            value = std::move(*queue_.front());
            queue_.pop();
            result = true;
            mutex_.unlock();"""),
("aq-empty-nolock","C26 C23",AQ,"""    CBool empty() {
        CGRAPH_LOCK_GUARD lk(mutex_);""","""    CBool empty() {"""),
("wq-steal-front","C26",WQ,"value = std::forward<T>(deque_.back());    // 从后方窃取\n                deque_.pop_back();","value = std::forward<T>(deque_.front());    // 从后方窃取\n                deque_.pop_front();"),
("wq-batch-steal-recheck","C26 C23",WQ,"while (!deque_.empty() && maxStealBatchSize--) {","while (deque_.size() > 0 && maxStealBatchSize-- >= 0) {"),
("wq-push-keeplock","C26",WQ,"        if (enable && !lockable) {\n            mutex_.unlock();","        if (enable) {\n            mutex_.unlock();"),
("wq-vector-reverse","C26",WQ,"""                for (auto& value : values) {
                    deque_.emplace_back(value);""","""                for (auto& value : values) {
                    deque_.emplace_front(value);"""),
("wq-trypush-result","C26",WQ,"            mutex_.unlock();\n            result = true;\n        }\n        return result;","            mutex_.unlock();\n        }\n        return result;"),
("pq-less","C26 C25",PQ,"return *lhs < *rhs;","return *rhs < *lhs;"),
("pq-push-prio","C26 C25",PQ,"c_make_unique<T>(std::move(value), priority)","c_make_unique<T>(std::move(value), -priority)"),
("pq-batch","C26 C25",PQ,"maxPoolBatchSize-- > 0","maxPoolBatchSize-- >= 0"),
("pq-recheck","C26 C25",PQ,"""            if (!priority_queue_.empty()) {
                value = std::move(*priority_queue_.top());
                priority_queue_.pop();
                result = true;
            }""","""            value = std::move(*priority_queue_.top());
            priority_queue_.pop();
            result = true;"""),
("pq-clear","C24 C26",PQ,"            priority_queue_.swap(tasks);","            if (priority_queue_.size() > 1) { priority_queue_.swap(tasks); }"),
]
