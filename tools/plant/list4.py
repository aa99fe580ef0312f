C='src/GraphCtrl/'; GE=C+'GraphElement/'
SO=GE+'GGroup/GSome/GSome.cpp'; FE=GE+'GAdapter/GFence/GFence.cpp'; CR=GE+'GAdapter/GCoordinator/GCoordinator.inl'
OP=GE+'_GOptimizer/GOptimizer.h'; MX=GE+'_GOptimizer/GMaxParaOptimizer.h'; SP=GE+'_GOptimizer/GSeparateOptimizer.h'; TR=GE+'_GOptimizer/GTrimOptimizer.h'
ST=C+'GraphStage/GStage.cpp'; SM=C+'GraphStage/GStageManager.h'; MM=C+'GraphMessage/GMessageManager.h'
PF=C+'GraphPipeline/_GPerf/GPerf.cpp'; PA=C+'GraphPipeline/_GPerf/GPerfAspect.h'; SC=C+'GraphPipeline/_GSchedule/GSchedule.cpp'; SG=C+'GraphPipeline/_GStroage/GStorage.cpp'
PM=C+'GraphPipeline/GPipelineManager.cpp'; FA=C+'GraphPipeline/GPipelineFactory.cpp'; TI='src/UtilsCtrl/Timer/UTimer.h'
RB='src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h'; LF='src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h'; TK='src/UtilsCtrl/ThreadPool/Task/UTask.h'; TG='src/UtilsCtrl/ThreadPool/Task/UTaskGroup.h'; SL='src/UtilsCtrl/ThreadPool/Lock/USpinLock.h'; SE='src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h'; CF='src/UtilsCtrl/ThreadPool/UThreadPoolConfig.h'
LR='src/UtilsCtrl/Lru/ULru.h'; SI='src/UtilsCtrl/Singleton/USingleton.h'; CS='src/CBasic/CStatus.h'
L=[
("some-member-limit","C10 C12",SO,"if (CGRAPH_DEFAULT_ELEMENT_TIMEOUT == element->timeout_) {","if (CGRAPH_DEFAULT_ELEMENT_TIMEOUT >= element->timeout_) {"),
("some-err-notify","C10 C04",SO,"if (wait_num_ <= 0 || cur_status_.isErr() || 0 == rest_num_) {","if (wait_num_ <= 0 || 0 == rest_num_) {"),
("some-rest-notify","C10 C03",SO,"if (wait_num_ <= 0 || cur_status_.isErr() || 0 == rest_num_) {","if (wait_num_ == 0 || cur_status_.isErr()) {"),
("some-reset-status","C10 C04",SO,"    status = cur_status_;\n    cur_status_.reset();","    status = cur_status_;"),
("some-rest-state","C10 C12",SO,"        element->cur_state_.compare_exchange_strong(timeout, GElementState::NORMAL);\n","        (void)timeout;\n"),
("some-ge","C10",SO,"wait_num_ > children_.size(),","wait_num_ >= children_.size(),"),
("some-done-late","C10",SO,"""    for (auto* element : children_) {
        element->done_ = false;
    }
""",""),
("some-status-copy","C10 C04",SO,"cur_status_ += curStatus;","cur_status_ = curStatus;"),
("some-hold","C10 C07",SO,"    // 这里固定是不可以 hold的\n    return false;","    return GGroup::isHold();"),
("some-loop","C10 C35",SO,"(CGRAPH_DEFAULT_LOOP_TIMES != loop_)","(CGRAPH_DEFAULT_LOOP_TIMES > loop_)"),
("some-waitrest-early","C10",SO,"        return 0 == rest_num_;\n","        return rest_num_ <= 1;\n"),

("fence-clear-init","C12 C06",FE,"CVoid GFence::clear() {\n    CGRAPH_ASSERT_INIT_THROW_ERROR(false)\n","CVoid GFence::clear() {\n"),
("fence-suitable","C12 C35",FE,"        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!element->isAsync(),","        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(element->loop_ > 99999 && !element->isAsync(),"),
("fence-status","C12 C04",FE,"status += element->getAsyncResult();","status = element->getAsyncResult();"),
("fence-break","C12",FE,"        status += element->getAsyncResult();\n","        status += element->getAsyncResult();\n        CGRAPH_FUNCTION_CHECK_STATUS\n"),
("coord-zero","C13",CR,"(SIZE >= 0)","(SIZE > 0)"),
("coord-loop","C13 C35",CR,"BY_CONDITION(loop_ > 1,","BY_CONDITION(loop_ > 2,"),
("sep-first","C29",SP,"std::find(path.begin(), path.end(), snd) != path.end()) {","std::find(path.begin(), path.end(), snd) != path.end() && path.front() != snd) {"),
("sep-patch","C29",SP,"if (path[i] == ancestor) {\n                break;","if (path[i] == ancestor) {\n                patch = path[i];\n                break;"),
("opt-skip-single","C29 C34",OP,"if (element->dependence_.empty()) {","if (element->dependence_.empty() && (elements.size() < 4 || !element->run_before_.empty())) {"),
("maxp-unlink","C29",MX,"buildGraph(elements, paths, 0, 0, 1)","buildGraph(elements, paths, 0, 1, 1)"),
("trim-region","C29",TR,"            if (GElementType::REGION == cur->element_type_) {","            if (GElementType::REGION == cur->element_type_ && candidates.empty()) {"),
("stage-nolock","C19",ST,"    CGRAPH_UNIQUE_LOCK lk(locker_.mtx_);\n    const CSize round = round_;\n    cur_value_++;","    const CSize round = round_;\n    cur_value_++;\n    CGRAPH_UNIQUE_LOCK lk(locker_.mtx_);"),
("stage-round-late","C19",ST,"    cur_value_ = 0;\n    round_++;","    round_++;"),
("stage-notify-one","C19",ST,"locker_.cv_.notify_all();","locker_.cv_.notify_one();"),
("stage-throw","C19 C05",ST,"        } catch (...) {\n            release();\n            throw;","        } catch (...) {\n            throw;"),
("stage-dup","C19 C35",SM,"        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(stage_map_.find(key) != stage_map_.end(),\n                                                \"[\" + key + \"] add stage duplicate\");\n        GStagePtr","        GStagePtr"),
("stage-param-manager","C19 C17",SM,"        stage->setGParamManager(param_manager_);\n        stage_map_.insert","        stage_map_.insert"),
("stage-init-all","C06 C19",SM,"            if (status.isErr()) {\n                break;\n            }\n",""),
("msg-recv-lock","C21",MM,"    std::shared_ptr<GMessage<T> > findTopic(const std::string& innerTopic) {\n        CGRAPH_LOCK_GUARD lk(send_recv_mutex_);","    std::shared_ptr<GMessage<T> > findTopic(const std::string& innerTopic) {"),
("msg-create-size","C21",MM," && curTopic->getCapacity() == size)",")"),
("msg-create-type","C21",MM,"typeid(*curTopic).name() == typeid(GMessage<TImpl>).name() && curTopic","curTopic"),
("msg-detach-conn","C22",MM,"                conn_message_map_.erase(connId);\n                break;","                break;"),
("msg-detach-set","C22",MM,"                messageSet.erase(iter);\n                conn_message","                conn_message"),
("msg-drop-conn","C22",MM,"            conn_message_map_.erase(msg->getConnId());\n        }\n        pub","            (void)msg;\n        }\n        pub"),
("msg-bind-drops","C22",MM,"pub_sub_message_map_[innerTopic].insert(message);","auto& all = pub_sub_message_map_[innerTopic]; if (all.size() > 1) { all.erase(all.begin()); } all.insert(message);"),
("msg-clear-conn","C22",MM,"            conn_message_map_.clear();\n            cur_conn","            cur_conn"),
("msg-prefix","C21 C22",C+'GraphMessage/GMessageDefine.h',"SEND_RECV_PREFIX = \"SR_PRE_\"","SEND_RECV_PREFIX = \"PS_PRE_\""),
("perf-accu","C34",PA,"perf_info_->accu_cost_ts_ += (cur","perf_info_->accu_cost_ts_ = (cur"),
("perf-first","C34",PA,"if (0 == perf_info_->loop_) {","if (0 == perf_info_->first_start_ts_) {"),
("perf-longest-gt","C34",PF,"if (curTs >= maxTs) {","if (curTs > maxTs) {"),
("perf-recover-status","C34",PF,"    status += recover(pipeline);","    status = recover(pipeline);"),
("perf-recover-throw","C34",PF,"        recover(pipeline);\n        throw;","        throw;"),
("perf-fetch","C34",PF,"pipeline->repository_.fetchAll(pipeline->element_manager_);\n","pipeline->repository_.fetchAll(pipeline->element_manager_);\n    if (pipeline->repository_.elements_.size() > 5) { CGRAPH_FUNCTION_END }\n"),
("sched-null","C33 C23",SC,"type_ = (nullptr == tp) ? internal::GScheduleType::UNIQUE : internal::GScheduleType::SHARED;","type_ = internal::GScheduleType::SHARED;"),
("sched-delete","C33",SC,"    CGRAPH_DELETE_PTR(this->unique_tp_)\n    shared_tp_ = tp;","    shared_tp_ = tp;"),
("sched-notinit","C33",SC,"        if (!shared_tp_->isInit()) {","        if (false) {"),
("stor-level","C30",SG,"    UREFL_DECLARE_FIELD(_GElementStorage, level_, 7),\n",""),
("stor-backtrace","C30",SG,"        param->backtrace_enable_ = gps.backtrace_;\n",""),
("stor-eparam","C30",SG,"        status += loadEParam(element, cur.eparam_storages_);\n",""),
("stor-threshold","C30",SG,"        stage->threshold_ = gss.threshold_;\n",""),
("stor-stage-param","C30 C19",SG,"        stage->param_manager_ = pipeline->param_manager_;\n",""),
("stor-event-param","C30",SG,"    pipeline->event_manager_->param_manager_ = pipeline->param_manager_;\n",""),
("stor-daemon-event","C30",SG,"        daemon->setGEventManager(pipeline->event_manager_);\n",""),
("stor-daemon-param","C30",SG,"        daemon->setGParamManager(pipeline->param_manager_);\n",""),
("stor-engine","C30",SG,"    pipeline->setGEngineType(storage.engine_type_);\n",""),
("stor-pool","C30",SG,"    pipeline->setUniqueThreadPoolConfig(storage.thread_pool_config_);\n",""),
("stor-write-err","C30",SG,"        if (!ofd) {\n            status = CStatus(\"Failed to write","        if (false) {\n            status = CStatus(\"Failed to write"),
("stor-type-check","C30",SG,"        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(element->element_type_ != cur.element_type_,","        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(false,"),
("stor-aspect-one","C30",SG,"            element->aspect_manager_->add(aspect);\n","            element->aspect_manager_->add(aspect);\n            if (element->isGGroup()) { break; }\n"),
("pm-release-back","C28",PM,"    if (!result) {\n        CGRAPH_RETURN","    if (!result && !is_init_) {\n        CGRAPH_RETURN"),
("pm-clear-init","C28",PM,"CStatus GPipelineManager::clear() {\n    CGRAPH_FUNCTION_BEGIN\n    CGRAPH_ASSERT_INIT(false)\n","CStatus GPipelineManager::clear() {\n    CGRAPH_FUNCTION_BEGIN\n"),
("pm-destroy-used","C28",PM,"""    if (!used_list_.empty()) {
        CGRAPH_RETURN_ERROR_STATUS("used list status error")
    }

    for (auto pipeline : free_list_) {
        status += pipeline->destroy();""","""    for (auto pipeline : free_list_) {
        status += pipeline->destroy();"""),
("factory-nolock","C28",FA,"        CGRAPH_LOCK_GUARD lock(s_lock_);\n        s_pipeline_list_.remove","        s_pipeline_list_.remove"),
("factory-keep","C28",FA,"        s_pipeline_list_.clear();","        while (s_pipeline_list_.size() > 1) { s_pipeline_list_.pop_front(); }"),
("ring-cap","C26 C21",RB,"        capacity_ = size;\n        ring_buffer_queue_.resize(capacity_ + 1);","        capacity_ = size;\n        ring_buffer_queue_.resize(size > 1 ? size : size + 1);"),
("ring-replace","C26 C21",RB,"                        head_ = next(head_);\n                        break;","                        tail_ = (tail_ + capacity_) % (capacity_ + 1);\n                        break;"),
("ring-clear","C26 C21 C31",RB,"            head_ = 0;\n            tail_ = 0;\n        }\n        push","            head_ = tail_;\n        }\n        push"),
("ring-clear-notify","C26 C21 C31",RB,"        push_cv_.notify_all();\n","        push_cv_.notify_one();\n"),
("ring-wait-if","C26 C21",RB,"push_cv_.wait(lk, [this] { return !isFull(); });","push_cv_.wait(lk);"),
("ring-keep","C26 C21 C31",RB,"value = std::move(ring_buffer_queue_[head_]);","value = ring_buffer_queue_[head_];"),
("lf-reset","C26",LF,"        ring_buffer_[curHead].reset();\n",""),
("lf-relaxed","C26",LF,"tail_.store(nextTail, std::memory_order_release);","tail_.store(nextTail, std::memory_order_relaxed);"),
("lf-relaxed2","C26",LF,"head_.store(nextHead, std::memory_order_release);","head_.store(nextHead, std::memory_order_relaxed);"),
("lf-cap","C26",LF,"(curHead + 1) % (CAPACITY + 1)","(curHead + 1) % CAPACITY"),
("task-move","C26 C25",TK,"            priority_(task.priority_) {}","            priority_(0) {}"),
("task-assign","C26 C25",TK,"        impl_ = std::move(task.impl_);\n        priority_ = task.priority_;","        impl_ = std::move(task.impl_);"),
("tg-clear","C25",TG,"        task_arr_.clear();","        if (task_arr_.size() > 1) { task_arr_.clear(); }"),
("tg-ctor-ttl","C25",TG,"            ->setTtl(ttl)\n","            ->setTtl(CGRAPH_MAX_BLOCK_TTL)\n"),
("tg-ctor-fin","C25",TG,"            ->setTtl(ttl)\n            ->setOnFinished(onFinished);","            ->setTtl(ttl);"),
("spin-try","C27",SL,"return !flag_.test_and_set();","return !flag_.test_and_set(std::memory_order_relaxed);"),
("sem-if","C27",SE,"        cv_.wait(lk, [this] {\n            return cnt_ > 0;\n        });","        if (cnt_ <= 0) { cv_.wait(lk); }"),
("sem-notify","C27",SE,"        cnt_++;\n        cv_.notify_one();","        if (0 == cnt_++) { cv_.notify_one(); }"),
("conf-check-max","C24 C06",CF,"if (default_thread_size_ + secondary_thread_size_ > max_thread_size_) {","if (default_thread_size_ > max_thread_size_) {"),
("conf-steal","C23 C24",CF,"this->default_thread_size_ - 1);","this->default_thread_size_ - 2);"),
("lru-evict","C31",LR,"        } else if (cur_size_ >= capacity_) {","        } else if (cur_size_ > capacity_) {"),
("lru-clear","C31",LR,"        cache_.clear();\n        cur_size_ = 0;","        cache_.clear();"),
("single-relaxed","C13 C31",SI,"if (unlikely(nullptr == handle_.load(std::memory_order_acquire))) {","if (unlikely(nullptr == handle_.load(std::memory_order_relaxed))) {"),
("single-nocheck","C13 C31",SI,"            if (nullptr == handle_.load(std::memory_order_relaxed)) {","            {"),
("status-move","C32",CS,"""    CSTATUS(const CSTATUS&& status) noexcept {
        this->error_code_ = status.error_code_;
        this->error_info_ = status.error_info_;""","""    CSTATUS(const CSTATUS&& status) noexcept {
        this->error_code_ = status.error_code_;"""),
("status-reset","C32",CS,"if (this->error_code_ != STATUS_OK) {","if (this->error_code_ < STATUS_OK) {"),
("status-add-pos","C32",CS,"if (!this->isErr() && cur.isErr()) {","if (this->isOK() && cur.isErr()) {"),
("status-setinfo","C32",CS,"error_info_ = (STATUS_OK == error_code_) ? CGRAPH_EMPTY : info;","error_info_ = info;"),
("timer-stop-lock","C20",TI,"            CGRAPH_LOCK_GUARD lk(mutex_);\n            cv_.notify_one();","            cv_.notify_one();"),
("timer-span","C20",TI,"? (origin_interval_ - span)","? (origin_interval_)"),
]
