C = "src/GraphCtrl/"; GE = C + "GraphElement/"; G = GE + "GGroup/"; EL = GE + "GElement.cpp"; RE = GE + "GElementRepository.cpp"; EM = GE + "GElementManager.cpp"; PI = C + "GraphPipeline/GPipeline.cpp"; PM = C + "GraphParam/GParamManager.cpp"; PMI = C + "GraphParam/GParamManager.inl"; AM = C + "GraphAspect/GAspectManager.cpp"; EV = C + "GraphEvent/GEvent.cpp"; EVM = C + "GraphEvent/GEventManager.cpp"; MM = C + "GraphMessage/GMessageManager.h"; TI = "src/UtilsCtrl/Timer/UTimer.h"; SI = GE + "GAdapter/GSingleton/GSingleton.inl"; MU = G + "GMutable/GMutable.cpp"; RG = G + "GRegion/GRegion.cpp"; CO = G + "GCondition/GCondition.cpp"; MC = G + "GCondition/GMultiCondition.inl"; GG = G + "GGroup.cpp"
L = [
("cancel-overridden", "C14 C15", RE, "(!force && GElementState::CANCEL == curState)", "(!force && GElementState::NORMAL == state && GElementState::CANCEL == curState)"),
("cancel-overridden2", "C14 C15", RE, "(!force && GElementState::CANCEL == curState)", "(!force && GElementState::SUSPEND == state && GElementState::CANCEL == curState)"),
("notify-normal-only", "C14 C15", RE, "if (GElementState::SUSPEND != state) {", "if (GElementState::NORMAL == state) {"),
("notify-cancel-only", "C15", RE, "if (GElementState::SUSPEND != state) {", "if (GElementState::CANCEL == state) {"),
("notify-one", "C15", RE, "cur->suspend_locker_.cv_.notify_all();", "cur->suspend_locker_.cv_.notify_one();"),
("fetch-flat", "C08", RE, "        for (auto* cur : group->children_) {\n            fetch(cur);\n        }\n", "        for (auto* cur : group->children_) {\n            elements_.insert(cur);\n        }\n"),
("async-set-kept", "C12 C06", RE, "    async_elements_.clear();    // 每次记得清空这里。因为每次init之后，都可能不一样\n", ""),
("some-set-kept", "C10 C06", RE, "    some_elements_.clear();\n", ""),
("destroy-waits-hold-only", "C12 C33", RE, "        for (auto& late : cur->late_results_) {\n            late.wait();\n        }", "        for (auto& late : cur->late_results_) {\n            if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) { late.wait(); }\n        }"),
("destroy-waits-last", "C12 C33", RE, "        for (auto& late : cur->late_results_) {\n            late.wait();\n        }", "        if (!cur->late_results_.empty()) {\n            cur->late_results_.back().wait();\n        }"),
("late-not-cleared", "C12", RE, "            cur->late_results_.clear();\n        }\n        cur->async_result_", "        }\n        cur->async_result_"),
("timeout-restored-hold-only", "C12 C14", RE, "        if (cur->isTimeout()) {\n            cur->cur_state_.store(GElementState::NORMAL", "        if (cur->isTimeout() && GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {\n            cur->cur_state_.store(GElementState::NORMAL"),
("async-result-kept", "C12", RE, "        cur->async_result_ = std::shared_future<CStatus>();\n", ""),
("crash-late-hook", "C16", RE, "                    (void)cur->doAspect(internal::GAspectType::ENTER_CRASHED);\n                    status += cur->crashed(ex);", "                    status += cur->crashed(ex);"),
("process-cancel", "C14", PI, "           && !repository_.isCancelState()) {", "           && (runTimes > 0 || !repository_.isCancelState())) {"),
("process-cancel2", "C14", PI, "           && !repository_.isCancelState()) {", ") {"),
("process-resets", "C14 C15", PI, "            status += runOnce();", "            status += run();"),
("finish-order", "C18 C12 C16", PI, "    status += repository_.reset();    // 等异步的逻辑执行，并且获取异步执行的结果信息\n    status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束\n", "    status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束\n    status += repository_.reset();    // 等异步的逻辑执行，并且获取异步执行的结果信息\n"),
("finish-order2", "C17 C18", PI, "    status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束\n    param_manager_->resetWithStatus(status);\n", "    param_manager_->resetWithStatus(status);\n    status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束\n"),
("finish-order3", "C17 C12 C10", PI, "    status += repository_.reset();    // 等异步的逻辑执行，并且获取异步执行的结果信息\n    status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束\n    param_manager_->resetWithStatus(status);\n", "    status += event_manager_->reset();    // 所有的事件（特指异步事件）执行结束\n    param_manager_->resetWithStatus(status);\n    status += repository_.reset();    // 等异步的逻辑执行，并且获取异步执行的结果信息\n"),
("reset-old-status", "C17", PI, "    param_manager_->resetWithStatus(status);", "    param_manager_->resetWithStatus(status.isErr() ? CStatus(status.getInfo()) : status);"),
("throw-no-finish", "C05 C17 C12 C18", PI, "        status = CStatus(internal::STATUS_CRASH, ex.what());\n        finishRun(status);\n        throw;", "        throw;"),
("destroy-throw", "C05 C06", PI, "        status += CStatus(internal::STATUS_CRASH, ex.what());\n    }\n    status += stage_manager_->destroy();", "        return CStatus(internal::STATUS_CRASH, ex.what());\n    }\n    status += stage_manager_->destroy();"),
("serial-shared", "C29", PI, "    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((schedule_.type_ != internal::GScheduleType::UNIQUE),    \\\n                                            \"cannot set serial config without UNIQUE schedule\")\n", ""),
("serial-async", "C29", EM, "            || cur->isAsync()) {\n            return false;", ") {\n            return false;"),
("serial-group-async", "C29", GG, "        return element->isSerializable() && !element->isAsync();", "        return element->isSerializable();"),
("resort-init", "C19 C06 C35", EM, "    resort();\n    status = initEngine();", "    status = initEngine();"),
("resort-trim", "C29", EM, "    resort();\n    return GTrimOptimizer", "    return GTrimOptimizer"),
("register-early", "C35", PI, "    const std::string& curName = name.empty() ? element->getName() : name;\n", "    repository_.insert(element);\n    const std::string& curName = name.empty() ? element->getName() : name;\n"),
("register-rename", "C34", PI, "    const std::string& curName = name.empty() ? element->getName() : name;\n", "    const std::string& curName = name;\n"),
("cond-default", "C09", CO, "    } else if (0 <= index && index < (CIndex)children_.size()) {", "    } else if (0 < index && index < (CIndex)children_.size() || 0 == index) {"),
("cond-end", "C09", CO, "index < (CIndex)children_.size()) {", "index <= (CIndex)children_.size() && index != 3) {"),
("cond-neg", "C09", CO, "internal::CGRAPH_CONDITION_LAST_INDEX == index", "internal::CGRAPH_CONDITION_LAST_INDEX >= index"),
("multi-binding", "C09 C23", MC, "}, cur->binding_index_)));", "}, CGRAPH_POOL_TASK_STRATEGY)));"),
("multi-match-late", "C09 C05", MC, "        if (cur->isMatch()) {\n            matched.emplace_back(cur);\n        }\n    }\n\n    std::vector<std::future<CStatus> > futures;\n    for (auto* cur : matched) {\n", "        matched.emplace_back(cur);\n    }\n\n    std::vector<std::future<CStatus> > futures;\n    for (auto* cur : matched) {\n        if (!cur->isMatch()) { continue; }\n"),
("multi-status", "C09", MC, "status += fut.get();", "status = fut.get();"),
("mutable-visible", "C11", MU, "        element->setVisible(true);\n    }\n\n    status = GGroup", "    }\n\n    status = GGroup"),
("mutable-setup-once", "C11", MU, "        element->run_before_.clear();\n", ""),
("mutable-destroy-half", "C11 C06", MU, "    status = GGroup::destroy();", "    status = children_.empty() ? CStatus() : GGroup::destroy();"),
("region-init", "C06 C08", RG, "    is_init_ = false;\n    status = manager_->destroy();", "    status = manager_->destroy();\n    CGRAPH_FUNCTION_CHECK_STATUS\n    is_init_ = false;"),
("group-destroy-stop", "C06", GG, "        status += element->fatProcessor(CFunctionType::DESTROY);\n    }\n\n    is_init_ = false;", "        status += element->fatProcessor(CFunctionType::DESTROY);\n        CGRAPH_FUNCTION_CHECK_STATUS\n    }\n\n    is_init_ = false;"),
("group-rollback", "C06", GG, "        initialized.emplace_back(element);\n", "        if (!element->isGGroup()) { initialized.emplace_back(element); }\n"),
("managers-flat", "C17 C18 C08", GG, "        status += element->addManagers(paramManager, eventManager, stageManager);\n    }\n\n    CGRAPH_FUNCTION_END", "        status += element->GElement::addManagers(paramManager, eventManager, stageManager);\n    }\n\n    CGRAPH_FUNCTION_END"),
("param-cast", "C17", PMI, "return likely(typeid(T) == typeid(*param)) ? static_cast<T *>(param) : nullptr;", "return dynamic_cast<T *>(param);"),
("param-dup-ok", "C17", PMI, "return (typeid(*param).name() == typeid(T).name()) ?", "return (dynamic_cast<T *>(param)) ?"),
("param-get-nolock", "C17", PMI, "    CGRAPH_LOCK_GUARD lock(this->mutex_);    // 其他线程，可能正在创建或者删除\n", ""),
("param-remove-nolock", "C17", PM, "    CGRAPH_LOCK_GUARD lock(this->mutex_);    // 创建和销毁的时候，加锁\n", ""),
("param-keys-nolock", "C17", PM, "    CGRAPH_LOCK_GUARD lock(this->mutex_);\n    keys.reserve", "    keys.reserve"),
("param-setup-stop", "C17", PM, "        status += param.second->setup();\n", "        status += param.second->setup();\n        CGRAPH_FUNCTION_CHECK_STATUS\n"),
("param-destroy-stop", "C17 C06", PM, "        status += param.second->destroy();\n", "        status += param.second->destroy();\n        CGRAPH_FUNCTION_CHECK_STATUS\n"),
("param-reset-fail", "C17", PM, "        param.second->reset(curStatus);", "        if (curStatus.isNotErr() || params_map_.size() == 1) { param.second->reset(curStatus); }"),
("backtrace-enable", "C17", "src/GraphCtrl/GraphParam/GParam.cpp", "    if (!backtrace_enable_) {\n        return;\n    }\n", "    if (backtrace_enable_) {\n        return;\n    }\n"),
("aspect-last-status", "C16", AM, "                status = aspect->beginRun();", "                status += aspect->beginRun(); if (aspect != aspect_arr_.back()) { continue; }"),
("aspect-finish-rev", "C16", AM, "                aspect->finishRun(curStatus);", "                aspect_arr_[aspect_arr_.size() - 1 - (&aspect - &aspect)]->finishRun(curStatus);"),
("aspect-destroy", "C16", AM, "                status = aspect->beginDestroy();", "                (void)aspect->beginDestroy();"),
("event-keep-lock", "C18 C03", EV, "            waiting.swap(futures);", "            waiting = futures;\n            futures.clear();"),
("event-once", "C18", EV, "        for (auto& cur : waiting) {\n            cur.valid() ? cur.wait() : void();\n        }\n", "        for (auto& cur : waiting) {\n            cur.valid() ? cur.wait() : void();\n        }\n        if (waiting.size() == 1) { break; }\n"),
("event-destroy-skip", "C18", EV, "    asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);    // 在 run 之外触发的部分\n", ""),
("event-init-clear", "C18", EV, "    asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);\n    async_run_finish", "    async_run_finish"),
("event-strategy", "C18", EV, "    } else if (GEventAsyncStrategy::PIPELINE_DESTROY == strategy) {\n        CGRAPH_LOCK_GUARD lock(async_destroy_lock_);\n        async_destroy_futures_", "    } else if (GEventAsyncStrategy::PIPELINE_DESTROY == strategy) {\n        CGRAPH_LOCK_GUARD lock(async_destroy_lock_);\n        async_run_finish_futures_"),
("event-lock", "C18", EV, "        CGRAPH_LOCK_GUARD lock(async_destroy_lock_);\n", ""),
("event-param", "C18", EVM, "        event->setGParamManager(param_manager_);\n", ""),
("event-reset-first", "C18", EVM, "        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);\n", "        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);\n        if (events_map_.size() > 1) { break; }\n"),
("event-destroy-stop", "C18 C06", EVM, "        status += (iter.second)->fatDestroy();\n", "        status += (iter.second)->fatDestroy();\n        CGRAPH_FUNCTION_CHECK_STATUS\n"),
("topic-size", "C21", MM, "&& curTopic->getCapacity() == size)", "&& curTopic->getCapacity() >= size)"),
("topic-type", "C21", MM, "typeid(*curTopic).name() == typeid(GMessage<TImpl>).name() && ", ""),
("topic-create-lock", "C21", MM, "        CGRAPH_LOCK_GUARD lk(send_recv_mutex_);\n        auto result = send_recv_message_map_.find(innerTopic);\n        if (result != send_recv_message_map_.end()) {", "        auto result = send_recv_message_map_.find(innerTopic);\n        if (result != send_recv_message_map_.end()) {"),
("conn-reuse", "C22", MM, "            CGRAPH_RETURN_ERROR_STATUS(\"no find [\" + topic + \"] topic\");\n        }\n\n        for (const auto& msg : result->second) {\n            conn_message_map_.erase(msg->getConnId());\n        }", "            CGRAPH_RETURN_ERROR_STATUS(\"no find [\" + topic + \"] topic\");\n        }\n\n        for (const auto& msg : result->second) {\n            conn_message_map_.erase(msg->getConnId());\n        }\n        if (conn_message_map_.empty()) { cur_conn_id_ = 0; }"),
("detach-keep", "C22", MM, "                conn_message_map_.erase(connId);\n", ""),
("drop-keep", "C22", MM, "            conn_message_map_.erase(msg->getConnId());\n        }", "            if (result->second.size() > 1) { conn_message_map_.erase(msg->getConnId()); }\n        }"),
("pub-lock", "C22 C03", MM, "            messageSet = result->second;\n        }\n", "            messageSet = result->second;\n            for (const auto& msg : messageSet) { if (messageSet.size() == 1) { msg->send(value, strategy); return status; } }\n        }\n"),
("detach-empty-topic", "C22", MM, "                conn_message_map_.erase(connId);\n                break;\n            }\n        }\n", "                conn_message_map_.erase(connId);\n                break;\n            }\n        }\n        if (messageSet.empty()) { pub_sub_message_map_.erase(result); }\n"),
("timer-stop-lock", "C20", TI, "            CGRAPH_LOCK_GUARD lk(mutex_);\n            cv_.notify_one();", "            cv_.notify_one();"),
("timer-nowait", "C20", TI, "        future_.wait();\n", ""),
("timer-drift", "C20", TI, "                         left_interval_ = (origin_interval_ > span)\n                                          ? (origin_interval_ - span)\n                                          : (origin_interval_);", "                         left_interval_ = origin_interval_;"),
("timer-busy", "C20", TI, "(origin_interval_ > span)", "(origin_interval_ >= span)"),
("singleton-destroy", "C13", SI, "    if (status.isOK()) {\n        s_is_init_ = false;\n    }", "    s_is_init_ = false;"),
("singleton-init-fail", "C13", SI, "    if (status.isOK()) {\n        s_is_init_ = true;\n    }", "    s_is_init_ = true;"),
("singleton-level", "C13", SI, "    this->setName(name);\n    this->setLoop(loop);", "    this->setName(name);"),
("timeout-kept-result", "C12", EL, "        const auto result = std::move(async_result_);\n        status = result.get();", "        status = async_result_.get();"),
("late-erased", "C12", EL, "        if (GElementTimeoutStrategy::HOLD_BY_PIPELINE != timeout_strategy_) {\n            late_results_.erase(", "        {\n            late_results_.erase("),
("late-inverted", "C12 C33", EL, "return std::future_status::ready == cur.wait_for", "return std::future_status::ready != cur.wait_for"),
("timeout-state-error", "C12", EL, "        doAspect(internal::GAspectType::ENTER_TIMEOUT);\n        CGRAPH_RETURN_ERROR", "        cur_state_.store(GElementState::TIMEOUT, std::memory_order_release);\n        doAspect(internal::GAspectType::ENTER_TIMEOUT);\n        CGRAPH_RETURN_ERROR"),
("timeout-hook-after", "C12 C16", EL, "        doAspect(internal::GAspectType::ENTER_TIMEOUT);\n        CGRAPH_RETURN_ERROR", "        CGRAPH_RETURN_ERROR"),
("runnable-once", "C15", EL, "    while (GElementState::SUSPEND == state) {", "    if (GElementState::SUSPEND == state) {"),
("suspend-pred", "C15 C14", EL, "    this->suspend_locker_.cv_.wait(lk, [this] {\n        return GElementState::SUSPEND != pipeline_state_->load(std::memory_order_acquire);\n    });", "    this->suspend_locker_.cv_.wait(lk);"),
("suspend-cancel", "C14", EL, "        return GElementState::SUSPEND != pipeline_state_->load(std::memory_order_acquire);\n    });", "        return GElementState::NORMAL == pipeline_state_->load(std::memory_order_acquire);\n    });"),
("remove-depend-keep", "C29", EL, "    dependence_.remove(element);\n", "    if (dependence_.size() > 1) { dependence_.remove(element); }\n"),
("depend-self", "C35", EL, "        if (this == element) {\n            continue;\n        }\n", ""),
("depend-partial", "C35", EL, "        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((nullptr != this->param_manager_ && nullptr", "        element->run_before_.insert(this);\n        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((nullptr != this->param_manager_ && nullptr"),
("pop-aspect-keeps", "C16", EL, "    if (0 == aspect_manager_->getSize()) {\n        CGRAPH_DELETE_PTR(aspect_manager_)\n    }\n", "    if (1 >= aspect_manager_->getSize()) {\n        CGRAPH_DELETE_PTR(aspect_manager_)\n    }\n"),
]
