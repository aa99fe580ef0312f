GE = "src/GraphCtrl/GraphElement/"; D = GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"; EH = GE + "_GEngine/GEngine.h"; ST = GE + "_GEngine/GStaticEngine/GStaticEngine.cpp"; TO = GE + "_GEngine/GTopoEngine/GTopoEngine.cpp"; EL = GE + "GElement.cpp"
L = [
("root-any", "C01", EH, "&& std::all_of(", "&& std::any_of("),
("macro-binding", "C23 C01", ST, "if (element->isMacro() && element->isDefaultBinding()) {", "if (element->isMacro()) {"),
("topo-runs-on", "C04", TO, "        CGRAPH_FUNCTION_CHECK_STATUS\n    }\n", "    }\n"),
("endsize-kept", "C06 C03", D, "    total_end_size_ = 0;\n", ""),
("linked-kept", "C06 C01", EH, "        linked_size_ = 0;\n", ""),
("count-after-dispatch", "C02", D, "        running_size_.fetch_add(1, std::memory_order_acq_rel);\n        thread_pool_->execute([this, element] {\n            this->innerExec(element);\n            this->finishOne(); }, element->binding_index_);", "        thread_pool_->execute([this, element] {\n            this->innerExec(element);\n            this->finishOne(); }, element->binding_index_);\n        running_size_.fetch_add(1, std::memory_order_acq_rel);"),
("parallel-skip-finish", "C03", D, "    if (likely(!cur_status_.isErr())) {\n        const auto& status = element->fatProcessor(CFunctionType::RUN);", "    if (unlikely(cur_status_.isErr())) {\n        return;\n    }\n    {\n        const auto& status = element->fatProcessor(CFunctionType::RUN);"),
("positive-is-error", "C04", D, "if (likely(curStatus.isNotErr())) {", "if (likely(curStatus.isOK())) {"),
("hold-not-asked", "C07", EL, "checkSuspend(), isHold() && status.isOK() && checkRunnable()", "checkSuspend(), status.isOK() && isHold() && checkRunnable()"),
("finish-in-loop", "C07", EL, "                    } while (checkSuspend(), isHold() && status.isOK() && checkRunnable());\n", "                        if (status.isErr()) { break; }\n                    } while (checkSuspend(), isHold() && status.isOK() && checkRunnable());\n"),
("invisible-skips-run-only", "C11", EL, "    if (unlikely(!visible_)) {", "    if (unlikely(!visible_ && CFunctionType::RUN == type)) {"),
("async-late-status-lost", "C12", EL, "        late_results_.emplace_back(async_result_);", "        if (late_results_.empty()) { late_results_.emplace_back(async_result_); }"),
("timeout-pipeline-state", "C14 C12", EL, "    if (this->isTimeout()) {\n        return GElementState::TIMEOUT;", "    if (this->isAsync() && this->isTimeout()) {\n        return GElementState::TIMEOUT;"),
("remove-depend-one-side", "C29", EL, "    element->run_before_.remove(this);\n", "    if (element->run_before_.size() > 1) { element->run_before_.remove(this); }\n"),
("aspect-belong-last", "C16", EL, "        aspect_manager_->setBelong(this);", "        if (!isGGroup()) { aspect_manager_->setBelong(this); }"),
("prepared-stays", "C12 C06 C09 C10", EL, "                is_prepared_ = false;\n", ""),
("concerned-kept", "C17", EL, "                concerned_params_.clear();    // 仅需要记录这一轮使用到的 GParam 信息\n", ""),
("crash-code", "C05", EL, "status = crashed(ex);", "status += crashed(ex);"),
("reserved-last", "C19 C01", D, "                        if (reserved) {\n                            process(cur, false);\n                        } else {\n                            reserved = cur;    // 留一个作为亲和性的，在当前线程运行\n                        }", "                        if (!reserved) { reserved = cur; }\n                        process(cur, reserved == cur);"),
("reserved-twice", "C19 C01", D, "                if (reserved) { process(reserved, true); }", "                if (reserved && element->run_before_.size() < 4) { process(reserved, true); }"),
("front-inline-first", "C19 C14", D, "process(element, element == front_element_arr_.back());", "process(element, element == front_element_arr_.front());"),
("lock-status", "C04 C01", D, "        // 遇到异常情况，后续的element不再执行。已经派发出去的任务结束后，结束整体逻辑\n        CGRAPH_LOCK_GUARD lk(status_lock_);\n", ""),
("prepare-run-skip", "C04 C02", D, "        for (auto* element : total_element_arr_) {\n            element->refresh();\n        }\n        cur_status_.reset();", "        for (auto* element : front_element_arr_) {\n            element->refresh();\n        }\n        cur_status_.reset();"),
("refresh-late", "C01 C04", D, "    element->refresh();\n    const CStatus& curStatus = element->fatProcessor(CFunctionType::RUN);", "    const CStatus& curStatus = element->fatProcessor(CFunctionType::RUN);\n    if (curStatus.isNotErr()) { element->refresh(); }"),
]
