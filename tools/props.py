#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here as source because it is easier to read and edit)."""
import json, os
P = []
GE = "src/GraphCtrl/GraphElement/"
TP = "src/UtilsCtrl/ThreadPool/"


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})


p("C01", "Elements run exactly once per run and only after their dependencies",
  "In every successful run() of a pipeline each registered element executes exactly its loop count (default once), never overlapping itself, and starts only after every element it depends on has completely finished in that same run, with everything these wrote visible to it. "
  "This holds for every acyclic graph shape, for the dynamic, static and topological engine, for every pool size and pool option (thread binding, macro nodes, batch fetching, secondary threads, spinning epochs), and for each of several consecutive runs. "
  "A pipeline made serial, or driven by the topological engine, executes its elements one at a time.",
  ["schedules", "programs", "configurations"], "every acyclic graph, engine, pool configuration and thread interleaving",
  "The functional tests check counters of a few fixed graphs under whatever schedule the machine happens to produce; order is not asserted at all.",
  [GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", GE + "_GEngine/GStaticEngine/GStaticEngine.cpp", GE + "_GEngine/GTopoEngine/GTopoEngine.cpp", GE + "_GEngine/GEngine.h", GE + "GElement.cpp"],
  [("dependency countdown", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp afterElementRun"), ("layer matrix", GE + "_GEngine/GStaticEngine/GStaticEngine.cpp"), ("topological order", GE + "_GEngine/GEngine.h getTopo")],
  ["GNode::run of user nodes", "GPipeline::run"], [("left_depend_", "dependencies not finished yet", GE + "GElement.h")])

p("C02", "When run() returns, nothing of that run is executing or still to execute",
  "When run() of a pipeline returns, with success or with an error, no element of that pipeline is executing, and none starts executing until the next run() begins (except one whose time limit expired under a strategy that does not hold the run for it). "
  "This also holds for process(), for groups inside the pipeline, and when the thread pool is shared with others; a failed run leaves no task behind that could execute in a later run or after the pipeline was removed, and what the elements wrote is visible to the caller.",
  ["schedules", "programs", "fault_sequences"], "every schedule, graph, engine and position of a failing element",
  "Whether a straggler outlives run() depends on the interleaving of a failing element with others; tests fail single nodes and look at the returned status only.",
  [GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", GE + "_GEngine/GStaticEngine/GStaticEngine.cpp", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"],
  [("wait for the end of all elements", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp fatWait / parallelRunAll"), ("future.get over each layer", GE + "_GEngine/GStaticEngine/GStaticEngine.cpp")],
  ["GNode::run of user nodes", "return of GPipeline::run"])

p("C03", "run(), process(), destroy() and their futures always return",
  "As long as every element's own callback returns and the pool has a thread to spare for each group that is waiting for its members, run(), process(), destroy(), asyncRun() and asyncProcess() finish: no schedule loses the wakeup of the waiting thread, whether the run succeeds, an element returns an error or throws, and whatever the pool size, engine and busy-wait epochs. "
  "Completion does not depend on a timed wait expiring while a thread could take the work.",
  ["schedules", "programs", "configurations", "fault_sequences"], "every schedule of every bounded graph and pool, with and without failing elements",
  "A lost wakeup needs a notify in the window between predicate and wait; ordinary runs almost never hit it.",
  [GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", TP + "UThreadPool.cpp", TP + "Thread/UThreadPrimary.h"],
  [("condition variable with predicate under lock", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"), ("primary thread wait/wakeup", TP + "Thread/UThreadPrimary.h")],
  ["return of GPipeline::run / process / destroy"])

p("C04", "An element's error stops its dependents and is what run() returns",
  "If an element's run() returns an error status (negative code), then run() of the pipeline returns an error whose code and message are those of an element that failed in this run, and no element that depends, directly or transitively, on a failed element executes in this run. "
  "A status with a non-negative code is not an error; the order rule and at-most-once rule of a successful run also hold in a failing one, and a later run() on the same pipeline without a failing element is an ordinary successful run.",
  ["schedules", "programs", "fault_sequences"], "every choice of failing elements in every bounded graph, under every schedule",
  "Tests use one failing node in one graph; which error wins and what still starts depends on the schedule.",
  [GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", GE + "_GEngine/GStaticEngine/GStaticEngine.cpp", GE + "_GEngine/GTopoEngine/GTopoEngine.cpp", "src/CBasic/CStatus.h"],
  [("status accumulation", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp innerExec"), ("check before dispatch", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp process"), ("reset of the status", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp prepareRun")],
  ["CStatus returned by GPipeline::run"])

p("C05", "Exceptions in callbacks become crash results, and the pipeline survives",
  "If a callback of an element (its init, run, destroy or hold decision, a condition's choice, or the begin/finish hook of an aspect) throws the library's exception, neither the program nor a worker thread dies: the element's dependents do not execute and the exception reaches the caller of init(), run(), destroy(), process(), asyncRun() or asyncProcess() as that exception or as an error status with the crash code, either of them carrying the exception's text. "
  "enterCrashed of that element's aspects is called exactly once (and not for elements that neither threw nor contain the one that did), and the exception ends the element's loop. "
  "After a run that crashed, the same pipeline runs again normally and can be destroyed.",
  ["schedules", "programs", "fault_sequences"], "every throwing element and callback in every bounded graph, group kind and engine, under every schedule",
  "The existing tests throw from one node of one graph; on which thread the exception surfaces, and what has been dispatched by then, depends on the schedule.",
  [GE + "GElement.cpp", "src/CBasic/CException.h", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"],
  [("catch and conversion", GE + "GElement.cpp fatProcessor / crashed"), ("rethrow on crash status", "src/CBasic/CFuncType.h CGRAPH_FUNCTION_CHECK_STATUS")],
  ["CStatus or exception of GPipeline::run", "GAspect::enterCrashed"])

p("C06", "Pipeline life cycle: init, runs, destroy, in order, once each",
  "init() calls the init callback of every element (members of groups included) exactly once, in ascending order of level among the elements of the pipeline or of one region, wherever and whenever before init() the level was set; destroy() likewise; process(n) and asyncProcess(n) are init(), n runs and destroy(). "
  "A call that is out of order (init or configuration or registration while initialised; run, asyncRun, destroy, cancel, suspend or resume while not) is refused with an error and has no effect on what the elements do afterwards; after destroy() the pipeline can be initialised again. "
  "An init() in which an element, parameter, event or stage fails, or whose graph has a cycle, returns an error, executes nothing, and run() and destroy() remain refused; whatever it had initialised of these is destroyed, once, and the pipeline can be initialised again once the cause is gone. An element whose destroy fails makes destroy() return its error, but every other element, parameter, event and stage is destroyed all the same, once, and the pipeline is no longer initialised; likewise if one of these fails.",
  ["histories", "programs", "configurations"], "every sequence of life-cycle and configuration calls up to a depth, every level assignment and every digraph over the bounded elements",
  "Tests walk the usual order of calls; the other orders, cyclic graphs and levels changed late are not tried.",
  ["src/GraphCtrl/GraphPipeline/GPipeline.cpp", GE + "GElementManager.cpp", GE + "GElement.cpp", GE + "GElementSorter.h"],
  [("is_init_ guards", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"), ("sorted element set", GE + "GElementSorter.h"), ("cycle detection", GE + "_GEngine/GEngine.h")],
  ["GElement::init / destroy callbacks", "CStatus of GPipeline calls"])

p("C07", "Loop counts and holds: iterations, hold decisions and their hooks",
  "An element with loop count n iterates n times per run: before each iteration beginRun of its aspects is called once and after it finishRun once, and within an iteration it executes once more each time its hold decision, asked exactly once after each execution, answers yes. "
  "The loop count given last (at registration, by setLoop or by multiplication) counts; an execution that returns an error is followed by no further iteration or hold. "
  "A group with a loop count repeats all of its members that often, and the element after it starts only after the last execution of the last iteration.",
  ["programs", "schedules", "histories"], "every loop count and hold sequence of the bounded graphs, engine and schedule",
  "The tests use one loop count in one graph; executions, hook calls and hold questions are not counted against each other.",
  [GE + "GElement.cpp", GE + "GElement.h", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"],
  [("loop and hold", GE + "GElement.cpp fatProcessor")], ["GNode::run, isHold, GAspect::beginRun, finishRun"])

p("C08", "Clusters run members in sequence, regions by their dependencies",
  "In each iteration of a cluster its members execute one after the other in the order they were given; in each iteration of a region every member executes once (times its own loop count), after the members it depends on, for each engine a region can be given; a group starts after everything it depends on has finished, and what depends on it starts after all of its members have finished. This holds for groups nested in groups, and iteration by iteration. "
  "If a member returns an error, nothing that comes after it within the groups around it, or that depends on these groups, executes in this run, run() returns that error, and the next run executes everything again. Elements the user has created take part like registered ones, whatever the depth at which they are added.",
  ["programs", "schedules", "fault_sequences"], "every bounded nesting of clusters and regions, member graph, loop count, failing member and schedule",
  "The tests run a handful of fixed nestings under whatever schedule the machine produces; order between members is not asserted.",
  [GE + "GGroup/GCluster/GCluster.cpp", GE + "GGroup/GRegion/GRegion.cpp", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp", GE + "GElementManager.cpp"],
  [("serial loop over members", GE + "GGroup/GCluster/GCluster.cpp run"), ("engine of the region", GE + "GElementManager.cpp")], ["GNode::run of members"])

p("C09", "Conditions execute exactly the chosen members",
  "In each iteration a condition asks for its choice once and executes exactly the member with that index, the last one for -1, and none for an index without member. A multi condition asks every member once per iteration whether it matches and executes exactly those that do: one after the other in order if serial, all of them finished before the group ends if parallel. "
  "If members of a serial multi condition fail, those after them do not execute; in a parallel one all chosen members still finish before run() returns the error. If a member's match decision throws, the run ends with a crash result, that member does not execute, and no member executes after run() has returned. "
  "The next iteration or run decides anew.",
  ["programs", "schedules", "histories", "fault_sequences"], "every sequence of choices, subset of matching members and failing member, over several iterations and runs, under every schedule",
  "The tests choose one fixed index; choices out of range, per-iteration changes and failing or throwing members in the parallel form are not exercised.",
  [GE + "GGroup/GCondition/GCondition.cpp", GE + "GGroup/GCondition/GMultiCondition.inl"],
  [("choice", GE + "GGroup/GCondition/GCondition.cpp run"), ("commit and wait", GE + "GGroup/GCondition/GMultiCondition.inl")], ["GCondition::choose", "isMatch", "GNode::run of members"])

p("C10", "A some-group ends with its first k members, the run with all of them",
  "A group that waits for k of its members ends as soon as k of them have finished: what depends on it does not start earlier, and never has to wait for the others. Each member executes at most once per iteration and never in a later iteration or run, and run() returns only when no member is executing or still to execute. "
  "An error of a member that executed is what run() returns; with a k larger than the number of members run() or init() returns an error and no member executes. "
  "This assumes a thread pool with a thread for each member besides those that wait for them.",
  ["schedules", "programs", "fault_sequences"], "every k, number of members, failing member and completion order, over several iterations and runs, under every schedule",
  "Which members are among the first k is decided by the schedule; late members surfacing in the next run need two runs and an unlucky interleaving.",
  [GE + "GGroup/GSome/GSome.cpp", GE + "GGroup/GSome/GSome.inl", GE + "GElementRepository.cpp"],
  [("countdown", GE + "GGroup/GSome/GSome.cpp run"), ("waiting for the rest", GE + "GElementRepository.cpp reset")], ["GNode::run of members", "return of GPipeline::run"])

p("C11", "A mutable group executes exactly what the current reshape describes",
  "In each iteration a mutable group calls its reshape once, with all of its members, and then executes exactly the members that this call arranged, in the order of the dependencies and with the loop counts it set; nothing of an earlier iteration's arrangement (dependencies, visibility, loop counts) remains. "
  "If reshape returns an error, throws, or describes a cycle, no member executes, run() returns an error, and the next run is not affected. A member's error is what run() returns. "
  "All members are initialised and destroyed once with the pipeline.",
  ["programs", "histories", "schedules", "fault_sequences"], "every pair of successive bounded arrangements, failing reshape and schedule",
  "The test alternates two fixed arrangements; leftovers of one arrangement in the next depend on the pair of shapes.",
  [GE + "GGroup/GMutable/GMutable.cpp", GE + "GElement.cpp"],
  [("reset before reshape", GE + "GGroup/GMutable/GMutable.cpp run")], ["GMutable::reshape", "GNode::run of members"])

p("C12", "Time limits take effect once, on time, and fences wait for late elements",
  "An element with a time limit that is given a thread at once and finishes in time behaves like any other; if it takes longer, enterTimeout of its aspects is called exactly once and either run() returns an error naming it and its dependents do not execute (strategy error), or its dependents start when the limit expires; in the latter case run() waits for it and returns its error if it fails late (hold), or not (no hold), and destroy() waits for it in every case. Once the limit of a group has expired, none of its elements, at whatever depth, begins. "
  "A fence lets its dependents start only after every element it waits for has finished, returns their errors, and several fences can wait for one element; the next run is not affected by an element that was late. "
  "A limit together with a loop count, a negative limit, and a fence for an element without limit are refused.",
  ["schedules", "programs", "histories"], "every strategy, duration relative to the limit (including expiry at any moment), engine, fence and schedule, over successive runs",
  "Tests sleep for wall-clock times around the limit; the order of expiry, completion, fence and the end of the run is never controlled.",
  [GE + "GElement.cpp", GE + "GElementRepository.cpp", GE + "GAdapter/GFence/GFence.cpp", TP + "UThreadPool.inl"],
  [("asyncRun", GE + "GElement.cpp"), ("hold at the end of the run", GE + "GElementRepository.cpp reset"), ("fence", GE + "GAdapter/GFence/GFence.cpp run")], ["GNode::run", "GAspect::enterTimeout", "status of GPipeline::run"])

p("C13", "Adapters: functions, singletons and coordinators",
  "A function element calls the functions last given to it for init, run and destroy exactly where a node of its place would be called, with their status (nothing for those not given), and refuses new ones after init(). "
  "All singleton elements of one type, in one or several pipelines, are one object, whose init and destroy are called once per initialisation, and which is executed at each of its places. "
  "A coordinator changes the number of additional threads of the pool by its amount, never beyond the pool's limit, even if several coordinators execute at once; taking away more than there are is an error, and no thread remains after destroy(). A lazy singleton is created once however many threads ask for it first; a singleton element whose init failed is asked again at the next initialisation.",
  ["programs", "schedules", "fault_sequences"], "every placement of adapters in the bounded graphs, amounts and limits, failing functions, engine and schedule",
  "The adapters appear in tutorials only; their concurrent use is not tested.",
  [GE + "GAdapter/GFunction/GFunction.cpp", GE + "GAdapter/GSingleton/GSingleton.inl", GE + "GAdapter/GCoordinator/GCoordinator.inl", TP + "UThreadPool.cpp", "src/UtilsCtrl/Singleton/USingleton.h"],
  [("limit of secondary threads", TP + "UThreadPool.cpp createSecondaryThread"), ("one init per singleton", GE + "GAdapter/GSingleton/GSingleton.inl")], ["functions of GFunction", "T::run of GSingleton<T>", "threads of the pool"])

p("C14", "cancel() stops a run in progress, and the next one is whole",
  "Once cancel() has returned, while a run is in progress, no element starts an iteration or holds on, except an iteration that was already about to start, and none starts because of an element that finished later; in no schedule does an element execute although one it depends on was skipped. "
  "run() returns without error when what was executing has finished, also if the run was suspended before, and process() starts no further run, sets up no parameters for one, and destroys. A suspend() or resume() after the cancel does not undo it. "
  "The next run() executes every element again.",
  ["schedules", "histories", "programs"], "every moment of the call relative to the executions of the bounded pipelines (groups, loops and holds included), and every schedule",
  "The tutorial cancels one chain after a fixed sleep; nothing asserts what executed.",
  ["src/GraphCtrl/GraphPipeline/GPipeline.cpp", GE + "GElementRepository.cpp", GE + "GElement.cpp"],
  [("state of the pipeline", GE + "GElementRepository.cpp pushAllState"), ("check before each iteration", GE + "GElement.cpp fatProcessor")], ["GNode::run", "return of GPipeline::run and process"])

p("C15", "suspend() pauses a run without losing an execution, resume() continues it",
  "Once suspend() has returned, while a run is in progress, executions in progress finish, but no element starts, except an iteration that was already about to start, and none starts because of an element that finished later; while executions are outstanding run() does not return. "
  "After resume() the run continues and completes as if it had not been suspended: every element executes its full count, in order, and run() returns success; no schedule leaves it waiting. This holds for any number of suspensions of one run, also if one directly follows a resume.",
  ["schedules", "histories", "programs"], "every moment of the calls relative to the executions of the bounded pipelines, repeated suspensions and every schedule",
  "The tutorial suspends after a fixed sleep; a suspension that falls between two elements, or a resume that meets an element about to wait, needs a particular schedule.",
  ["src/GraphCtrl/GraphPipeline/GPipeline.cpp", GE + "GElementRepository.cpp", GE + "GElement.cpp"],
  [("waiting for the resume", GE + "GElement.cpp checkSuspend"), ("state and notification", GE + "GElementRepository.cpp pushAllState")], ["GNode::run", "return of GPipeline::run"])

p("C16", "Aspect hooks surround each callback in order and see its status",
  "For every callback of an element (init, each iteration of run, destroy) the begin hooks of its aspects are called in the order of addition, then the callback, then the finish hooks in the same order with the callback's status, each once; the hooks of a group surround those of its members. "
  "A begin hook that fails keeps later aspects' begin hooks, the callback, the finish hooks and the element's dependents from being called, and its error, unchanged, is what init(), run() or destroy() returns. "
  "An aspect added for all elements of a pipeline applies to each, members of groups included; each aspect has its own copy of the parameter it was added with, which is returned only as its own type, and template aspects keep their arguments. enterCrashed is called once for each exception that leaves a callback, enterTimeout once for each expired limit, in the same order, and neither at any other time.",
  ["inputs", "programs", "schedules"], "every failing element, hook and aspect position, three kinds of graph, the three engines, several runs and lives of the pipeline, and every bounded schedule",
  "Tests count one aspect's hooks on success; the combination of failing hook, position, group, loop and engine is never executed.",
  ["src/GraphCtrl/GraphAspect/GAspectManager.h", "src/GraphCtrl/GraphAspect/GAspectObject.h", GE + "GElement.cpp"],
  [("calling the hooks", "src/GraphCtrl/GraphAspect/GAspectManager.h reflect"), ("around a callback", GE + "GElement.cpp fatProcessor")], ["GAspect hooks", "GNode callbacks"])

p("C17", "Shared parameters: one object per key, found by all, reset with each run",
  "A parameter created under a key is one object for all parts of the pipeline, whichever of several concurrent creators is first; creating it again with its type succeeds, with another type it is refused, and it is returned only as exactly its type, also while others create or remove parameters. "
  "Its setup is called once before each run's first element (if it fails, no element executes), its reset once after the run with the run's status, when elements and awaited events have finished; its value is otherwise kept until it is removed, and it is freed with the pipeline. "
  "While one thread holds its lock no other obtains it; its trace lists every user once in order of first use; a parameter of an element is that element's own copy, fixed at init(). The keys an element reports as used are those it has obtained since init().",
  ["schedules", "histories", "inputs"], "every combination of creators, types and keys, every operation sequence up to four on two keys and types, every kind of run, every bounded schedule",
  "Tests create parameters before the run and read them; a lookup during an insertion or concurrent users of one event need an exact interleaving.",
  ["src/GraphCtrl/GraphParam/GParamManager.inl", "src/GraphCtrl/GraphParam/GParamManager.cpp", "src/GraphCtrl/GraphParam/GParam.cpp", "src/GraphCtrl/GraphParam/GParamManagerWrapper.h"],
  [("creation and lookup", "src/GraphCtrl/GraphParam/GParamManager.inl create, get"), ("setup and reset", "src/GraphCtrl/GraphPipeline/GPipeline.cpp runOnce, finishRun")], ["getGParam", "GParam::setup and reset"])

p("C18", "Events are executed once per trigger and awaited as asked",
  "A synchronous trigger returns after the event was executed with its own copy of its parameter; an asynchronous one is executed exactly once, on the pool: before run() returns by default, before destroy() returns if so asked, at most once, not after destroy() and not holding up run() if nobody is to wait, and its future becomes ready with the execution, or with the exception the event threw. "
  "This holds for any number of triggers from concurrent elements or elements past their time limit, without deadlock. An exception in a synchronous event is that of the element; an asynchronous one does not affect the run. Events are initialised once per life of the pipeline, and terminated once, after the triggers that are awaited; an unknown key, and a second event with the same key, is refused.",
  ["schedules", "programs", "histories"], "every assignment of trigger kinds and events to up to three elements, pool sizes, engines, own and shared pools, and every bounded schedule",
  "A trigger that is still queued when the run or the pipeline ends exists only in some schedules.",
  ["src/GraphCtrl/GraphEvent/GEvent.cpp", "src/GraphCtrl/GraphEvent/GEventManager.cpp", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"],
  [("trigger", "src/GraphCtrl/GraphEvent/GEvent.cpp process"), ("waiting", "src/GraphCtrl/GraphEvent/GEvent.cpp asyncWait")], ["GEvent::trigger", "return of run and destroy"])

p("C19", "A stage releases its elements together, threshold by threshold",
  "An element that enters a stage of threshold n leaves it only after n entries of that round. The stage's launch is called once per n entries, after the last of them and before any leaves, with the stage's own copy of its parameter. "
  "What was written before entering is visible after leaving. The stage can be entered again at once, in loops and in later runs; given a thread per participant no schedule and no spurious wakeup leaves a participant waiting or releases it early. All this also holds inside groups. A launch that throws fails the element that called it and releases the others. "
  "A threshold that is not positive, an unknown key, a second stage with the same key and adding a stage to an initialised pipeline are errors.",
  ["schedules", "programs", "fault_sequences"], "thresholds up to 3, up to 3 rounds per participant, loops and runs, spurious wakeups, throwing launch, every bounded schedule",
  "Tests let a few equal elements enter a stage once; re-entry while others are still leaving needs a particular schedule.",
  ["src/GraphCtrl/GraphStage/GStage.cpp", "src/GraphCtrl/GraphStage/GStage.h", "src/GraphCtrl/GraphStage/GStageManager.h"],
  [("waiting for the threshold", "src/GraphCtrl/GraphStage/GStage.cpp waiting"), ("lookup", "src/GraphCtrl/GraphStage/GStageManager.h")], ["enterStage", "GStage::launch"])

p("C20", "Daemons execute periodically, only while the pipeline is initialised",
  "A daemon executes for the first time one interval after init(), and then at its interval, from which the time its execution took is deducted, or after the time its modify() gives; it never overlaps itself and sees its own copy of its parameter and its template arguments. "
  "It executes only while the pipeline is initialised: never once destroy() has returned or init() has failed, and again after the next init(). destroy() does not wait for the interval to pass, and spurious wakeups change nothing. "
  "A timer that is running ignores a second start, can be stopped repeatedly, and can be started again.",
  ["schedules", "histories", "programs"], "intervals and execution times of a few virtual milliseconds, up to two lives of the pipeline, destroy() at every moment, every bounded schedule of timers and threads",
  "Tests run a daemon for a fixed time and look at its output; the moment of destroy() relative to an expiring interval is never controlled.",
  ["src/GraphCtrl/GraphDaemon/GDaemon.cpp", "src/GraphCtrl/GraphDaemon/GDaemonManager.h", "src/UtilsCtrl/Timer/UTimer.h"],
  [("interval", "src/UtilsCtrl/Timer/UTimer.h start, stop"), ("life", "src/GraphCtrl/GraphDaemon/GDaemonManager.h")], ["GDaemon::daemonTask", "UTimer callback"])

p("C21", "Send/receive topics are bounded FIFO queues shared by all pipelines",
  "A topic created with capacity n is a linearisable FIFO queue of at most n messages, shared by all threads and pipelines: WAIT blocks while it is full, REPLACE drops the oldest message, DROP the new one; each message is received once, by one receiver, in the order of sending, with what its sender wrote before. "
  "A receive with a time limit returns a message, or an error at the limit; nobody waits although a message or a place is there. An unknown topic is an error at once. Creating a topic again succeeds with the same type and capacity and is an error otherwise. "
  "Creating, removing and clearing topics may happen concurrently with all of this where nobody waits at the topic removed; messages are freed, whether received, dropped or left over.",
  ["schedules", "histories", "inputs"], "up to 3 threads with up to 3 operations, capacities 1-3, the three strategies, time limits, every bounded schedule, every sequence of four operations by one thread",
  "Tests send and receive in one fixed order; the contention of a full queue is left to the scheduler.",
  ["src/GraphCtrl/GraphMessage/GMessageManager.h", "src/GraphCtrl/GraphMessage/GMessage.h", TP + "Queue/UAtomicRingBufferQueue.h"],
  [("queue", TP + "Queue/UAtomicRingBufferQueue.h"), ("topics", "src/GraphCtrl/GraphMessage/GMessageManager.h")], ["CGRAPH_SEND_MPARAM", "CGRAPH_RECV_MPARAM"])

p("C22", "Publish/subscribe topics deliver every message to every connection",
  "Each binding to a topic has a connection id of its own and its own bounded FIFO queue. Every publish reaches every connection bound to the topic, by the strategy of the publish if its queue is full, and a connection receives the messages of one publisher in order, each once, with what its publisher wrote before. "
  "After detach, drop or clear, subscribing with the connections ended, or publishing to a topic without any, is an error. Binding, detaching, dropping, publishing and subscribing may happen concurrently. "
  "A send/receive topic and a publish/subscribe topic of the same name are independent.",
  ["schedules", "histories", "inputs"], "up to 3 threads, 3 connections and capacities up to 2, every strategy, every bounded schedule, every operation sequence of bounded length by one thread",
  "Tests bind before they publish; the registry is never used concurrently.",
  ["src/GraphCtrl/GraphMessage/GMessageManager.h", "src/GraphCtrl/GraphMessage/GMessage.h"],
  [("connections", "src/GraphCtrl/GraphMessage/GMessageManager.h bindTopic, dropTopic, pubTopicValue, subTopicValue")], ["CGRAPH_PUB_MPARAM", "CGRAPH_SUB_MPARAM"])

p("C23", "The thread pool executes every task exactly once and fulfils its future",
  "Every task given to an initialised thread pool, by commit or execute, with any trigger strategy, for a given thread, from outside or inside of a task, is executed exactly once on a thread of the pool, and its future gives its value or its exception; a throwing task harms no other. The task sees what was written before it was given, and who gets its future what it wrote. "
  "A task given to an idle pool starts without waiting for a polling interval to pass. Tasks queued at a thread that is busy are executed by others. No schedule of submitters and threads loses a task or a wakeup. "
  "A task can see the index of the thread that executes it, and elsewhere the index is that of no thread.",
  ["schedules", "configurations", "programs"], "pools of 1-3 primary threads, up to 3 submitters and 4 tasks, nested submissions, the pool's configuration options, every bounded schedule, virtual time",
  "Tests submit many tasks and count; a wakeup lost between a check and a wait costs a second at most and is not noticed.",
  [TP + "UThreadPool.cpp", TP + "UThreadPool.inl", TP + "Thread/UThreadPrimary.h", TP + "Thread/UThreadSecondary.h", TP + "Thread/UThreadBase.h", TP + "Queue/UWorkStealingQueue.h"],
  [("dispatch", TP + "UThreadPool.inl commit, execute, submit"), ("sleeping and waking", TP + "Thread/UThreadPrimary.h"), ("stealing", TP + "Thread/UThreadPrimary.h stealTask")], ["futures of commit", "executions of tasks"])

p("C24", "A thread pool can be destroyed and initialised again at any moment",
  "destroy() at any moment lets the tasks that have begun complete, drops the others and decides their futures, and returns when all of the pool's threads have ended, without waiting for a polling interval; no task is executed afterwards or in the next life. It can be repeated, the destructor does the same, and the pool can be initialised again. "
  "The configuration is refused while initialised, and tasks while not. "
  "Creating and releasing secondary threads loses and interrupts no task; their number stays within the maximum, of which released ones are no part, and releasing more than there are is an error. They can be created and released from several threads at once and from inside tasks. The monitor adds secondary threads only to a pool all of whose threads are busy or in which prioritised tasks wait, releases idle ones, and ends with the pool.",
  ["schedules", "histories", "configurations"], "destroy() at every moment of up to 4 tasks on 1-2 primary and up to 2 secondary threads, two lives, every sequence of creations and releases of bounded length, the monitor in virtual time",
  "Tests destroy an idle pool at the end of the program.",
  [TP + "UThreadPool.cpp", TP + "UThreadPool.inl", TP + "Thread/UThreadPrimary.h", TP + "Thread/UThreadSecondary.h"],
  [("life", TP + "UThreadPool.cpp init, destroy"), ("secondary threads", TP + "UThreadPool.cpp createSecondaryThread, releaseSecondaryThread, monitor")], ["UThreadPool::destroy", "futures", "threads"])

p("C25", "Task priorities and task groups",
  "Of the tasks with a priority that wait, the one of larger priority is taken first, tasks of long running time last; each is executed exactly once whatever the configuration of threads: by a secondary thread, created if the maximum allows it, or otherwise at once by an idle ordinary one. "
  "Submitting a task group returns success exactly if all of its tasks have finished within the smaller of the two limits, with their writes visible, and otherwise an error at the limit; the group's callback is called once with the same status, late tasks still complete. "
  "A group can be submitted again, also with further tasks, and an empty one succeeds.",
  ["schedules", "configurations", "inputs"], "up to 4 priorities in every order, groups of up to 3 tasks, limits around the tasks' durations in virtual time, thread configurations with 0-2 secondary threads, every bounded schedule",
  "The priority test only prints; a group that reaches its limit needs tasks whose time is controlled.",
  [TP + "UThreadPool.cpp", TP + "UThreadPool.inl", TP + "Queue/UAtomicPriorityQueue.h", TP + "Task/UTaskGroup.h"],
  [("priority", TP + "UThreadPool.inl commitWithPriority"), ("groups", TP + "UThreadPool.cpp submit")], ["order of execution", "status of submit"])

p("C26", "The concurrent queues are linearisable",
  "Each of the concurrent queues - the shared task queue, the work-stealing queue, the priority queue, the lock-free single-producer queue and the ring buffer - behaves under any concurrent use its interface allows like the sequential queue it implements, each operation at one moment between its call and its return. "
  "A try-operation fails only if the queue is empty (full), or while another call is in progress. Batches keep their order; who takes a value sees what was written before it was put; no value is lost, duplicated or leaked, values left over are destructed with the queue, and a blocked operation proceeds when its condition holds.",
  ["schedules", "histories"], "every program of up to 3 threads with up to 3 operations out of the interface and capacities 1-3, every bounded schedule; every sequential history to a depth",
  "Tests use the queues through the pool only; the operations' interleavings are up to the scheduler.",
  [TP + "Queue/UAtomicQueue.h", TP + "Queue/UWorkStealingQueue.h", TP + "Queue/UAtomicPriorityQueue.h", TP + "Queue/ULockFreeRingBufferQueue.h", TP + "Queue/UAtomicRingBufferQueue.h"],
  [("queues", TP + "Queue/")], ["results of push and pop"])

p("C27", "Spin lock, semaphore and waiting objects exclude and signal",
  "At most one thread at a time is between a lock() or successful tryLock() of the spin lock and its unlock(), and it sees everything its predecessors wrote there; tryLock() fails only if another thread holds or takes the lock, and lock() returns once the lock is free. "
  "Each signal() of the semaphore lets exactly one wait() return, whether called before or after it; no wait() returns without a signal, in spite of spurious wakeups, and none keeps waiting while signals are left. What was written before the signal is visible after the wait.",
  ["schedules", "programs"], "every program of up to 3 threads with up to 2 operations on a spin lock, up to 3 waiters and 2 signallers, spurious wakeups, every bounded schedule, the memory orders used checked by happens-before",
  "No test contends for these objects, and on x86 hardware a missing memory order is not visible.",
  [TP + "Lock/USpinLock.h", TP + "Lock/UCvMutex.h", TP + "Semaphore/USemaphore.h"],
  [("spin lock", TP + "Lock/USpinLock.h"), ("semaphore", TP + "Semaphore/USemaphore.h")], ["critical sections", "returns of wait"])

p("C28", "The pipeline manager hands each pipeline to one user at a time",
  "An initialised pipeline manager gives each of its pipelines to at most one user at a time, by fetch() until release(), or for one run() of the manager, which executes exactly one free pipeline once and gives it back afterwards whether it succeeds, fails or throws. A call is told that there is none only if all pipelines are in use; its size stays the number of pipelines. "
  "init() and destroy() reach each pipeline once and are refused while one is in use; if one of the pipelines fails in them, the manager returns its error, no pipeline stays initialised and the manager can be initialised again; adding, removing and clearing are refused while initialised, and releasing a pipeline that is not in use is an error. "
  "Pipelines can be created and removed by several threads, and removing or clearing them frees everything they own.",
  ["schedules", "histories", "fault_sequences"], "up to 3 users of up to 2 pipelines, failing and throwing ones, the engines, every bounded schedule; every sequence of four calls to the manager",
  "Tests let one thread run one pipeline through the manager.",
  ["src/GraphCtrl/GraphPipeline/GPipelineManager.cpp", "src/GraphCtrl/GraphPipeline/GPipelineFactory.cpp"],
  [("hand out", "src/GraphCtrl/GraphPipeline/GPipelineManager.cpp fetch, release, run"), ("factory", "src/GraphCtrl/GraphPipeline/GPipelineFactory.cpp")], ["fetch", "executions of elements", "status of run"])

p("C29", "What a pipeline says about its graph is true of how it executes",
  "For every dependency graph, and for elements nested in clusters, regions, conditions and multi-conditions: getMaxPara() of a graph of nodes is the size of the largest set of elements none of which comes before another; trim() removes exactly the redundant dependencies (those implied by the others) in the pipeline and in its regions, returns their number, and changes neither which elements come before which nor the parallelism; checkSeparate(a, b) is true exactly if the structure guarantees that a and b never overlap, and elements it calls separate overlap in no schedule; makeSerial() succeeds exactly if the pipeline is one chain whose groups can each be executed by one thread and no element has a time limit, and then the pipeline creates no thread and run() executes every element in the thread of the caller, in order, asynchronous events included; it is refused for a pipeline whose thread pool is shared, which keeps its threads. A dependency that was removed counts for none of this; removing one that does not exist, or in an initialised pipeline, is an error.",
  ["inputs", "configurations", "schedules"],
  "every graph of up to 5 elements (quick) and 6 (thorough), with every assignment of levels; two kinds of group nested with every internal graph, 3-element regions under every engine; overlaps: every graph of 4 elements / every group, with 1 deviation (quick) and 2 (thorough)",
  "the tests look at six pictures; the answers depend on the whole graph and their meaning is a statement about all schedules",
  [GE+"_GOptimizer/GMaxParaOptimizer.h", GE+"_GOptimizer/GTrimOptimizer.h", GE+"_GOptimizer/GSeparateOptimizer.h", GE+"GElementManager.cpp", "src/GraphCtrl/GraphPipeline/GPipeline.cpp", TP+"UThreadPool.inl"],
  [("GPipeline::getMaxPara, trim, checkSeparate, makeSerial", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"), ("GElementManager::checkSerializable", GE+"GElementManager.cpp"), ("UThreadPool::execute", TP+"UThreadPool.inl")],
  ["returned numbers and statuses", "dependencies of every element after trim()", "overlap of every pair of elements", "threads that exist"])

p("C30", "A loaded pipeline is the pipeline that was saved; a torn file is refused",
  "After save() and load() into another pipeline, that pipeline has the same elements (class, name, loop, level, binding index, visibility, time limit with its strategy), the same nesting with the same order of children, the same dependencies, engine (its own and that of its regions), aspects in their order, element parameters, parameters (with their backtrace setting), events, daemons with their interval, stages with their threshold and thread pool configuration (every field), owns all of it, and executes accordingly; saving does not change the pipeline. A file that was not written completely (torn at any byte) is refused with an error by a pipeline that can still load a complete one; saving to a place that cannot take the file, saving an adaptor or loading into an initialised pipeline are errors; a file that names a class which is not registered, wherever it is used, is refused and leaves nothing in the pipeline.",
  ["inputs", "configurations", "crash_points"],
  "every graph of up to 4 elements (quick) and 6 (thorough), every pair (thorough: triple) of nested groups with every internal graph, every combination of attributes and of attachments, every single and every two changed fields of the configuration, a crash after every byte of the file",
  "nothing tests it; what is lost shows only for the one attribute, attachment or byte count that is concerned",
  ["src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp", "src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h", "src/GraphCtrl/GraphPipeline/_GStroage/GStorageFactory.h", "src/UtilsCtrl/Reflection/UReflectionType.h", "src/UtilsCtrl/Reflection/UReflectionSession.h"],
  [("GPipeline::save, load", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"), ("GStorage", "src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp"), ("UReflSession", "src/UtilsCtrl/Reflection/UReflectionSession.h")],
  ["structure of the loaded pipeline as its elements see it", "executions and their order", "threads that exist", "bytes of the file", "returned statuses", "memory given back"])

p("C31", "The utility containers, distances, functions and singletons do what they say",
  "USmallVector holds exactly the values pushed since the last clear, in order, at any capacity, for any element type, also when pushed one of its own elements, and copies independently of each other; USerialUniqueArray keeps its elements once; ULru returns the value last put for a key unless it is the least recently used beyond the capacity; the Euclidean (squared or not) and cosine distances, to one or many vectors, and the normalisation have the values of their definition, and a calculator with the check switched on refuses null, empty or differently sized vectors instead of reading them; the functional helpers give the values of their definition; a USingleton creates its object once, every thread that gets it sees the completed object, and it is destroyed once.",
  ["inputs", "histories", "schedules"],
  "every operation sequence to the depth that the scenario names (6–7) for each capacity, every pair of small vectors with each dimension mismatch, every interleaving of 2–3 threads that get a lazy singleton within 3 pre-emptions",
  "no test calls the containers at their capacity, gives a distance wrong dimensions or creates a singleton from two threads; reads beyond the end go unnoticed without a monitor",
  ["src/UtilsCtrl/Container/USmallVector.h", "src/UtilsCtrl/Container/USerialUniqueArray.h", "src/UtilsCtrl/Lru/ULru.h", "src/UtilsCtrl/Distance/UDistanceCalculator.h", "src/UtilsCtrl/Distance/Common/UEuclideanDistance.h", "src/UtilsCtrl/Distance/Common/UCosineDistance.h", "src/UtilsCtrl/Singleton/USingleton.h"],
  [("USmallVector", "src/UtilsCtrl/Container/USmallVector.h"), ("UDistanceCalculator", "src/UtilsCtrl/Distance/UDistanceCalculator.h"), ("USingleton::create", "src/UtilsCtrl/Singleton/USingleton.h")],
  ["contents of the containers", "values and statuses of the distances", "constructions and destructions of the singleton", "reads and writes beyond allocated memory", "happens-before order of the singleton's data"])

p("C32", "A status keeps the first error, with its own code and text",
  "A CStatus is exactly what was put into it last: a copy, a moved or an assigned one has code and text of its source, whatever it held before; adding statuses keeps the first error with its own text; reset and setInfo(0) leave no error; ok, error, no error, crash and the conversion to bool follow from the code alone (negative is an error, positive a warning that stops nothing). The status that init(), run() and destroy() of a pipeline return, also from within clusters and regions and when several elements fail, is code and text of one and the same element that failed in that very call, not of an earlier one; with no failure it is no error.",
  ["histories", "programs", "schedules"],
  "every sequence of 4 operations (constructions, copies, moves, assignments, sums, setters, reset) on one status, 3 on two (thorough: 4, and 3 on three); every graph of 3 elements, clusters and regions with every pair of failing elements in every phase and engine under every schedule within one pre-emption (thorough: 2)",
  "what a status says matters only after the failure, and which of several failures wins depends on the schedule; no test assigns one failure over another",
  ["src/CBasic/CStatus.h", "src/CBasic/CFuncType.h", GE + "GElementManager.cpp"],
  [("CSTATUS", "src/CBasic/CStatus.h"), ("CGRAPH_FUNCTION_CHECK_STATUS", "src/UtilsCtrl/UtilsDefine.h")],
  ["code, text and predicates of the status"])

p("C33", "Pipelines that share a thread pool do not affect each other or the pool",
  "Pipelines that were given the same thread pool execute concurrently as if each was alone: every run executes each of its elements once in order of its dependencies, returns the status of its own failure only, and is complete when it returns, whatever the others do at the time: fail, throw, be cancelled, suspended, initialised, destroyed, removed, or keep a thread of the pool busy. Tasks the user commits to the pool are executed once each. The pool outlives the pipelines with all its threads, and they create no others; which pool a pipeline uses follows from the last setSharedThreadPool (none: its own, with its own configuration), which is refused while initialised, and a pool that is not initialised is an error of init().",
  ["schedules", "histories", "fault_sequences"],
  "two pipelines with every pair of 2- and 3-element graphs (thorough: 4) and engines, each failure, each life-cycle action of the other one, three kinds of tasks, within one pre-emption (thorough: 2); every sequence of 5 calls that set the pool, initialise, run, destroy",
  "tests share a pool between pipelines that do not overlap; the crossing of two runs is a matter of schedules",
  ["src/GraphCtrl/GraphPipeline/_GSchedule/GSchedule.cpp", "src/GraphCtrl/GraphPipeline/GPipeline.cpp", TP + "UThreadPool.cpp", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"],
  [("GPipeline::setSharedThreadPool", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"), ("GSchedule::init, destroy, makeType", "src/GraphCtrl/GraphPipeline/_GSchedule/GSchedule.cpp")],
  ["executions and their order", "returned statuses", "threads that exist", "tasks of the user"])

p("C34", "dump() draws the graph that executes; perf() measures it and leaves no trace",
  "dump() draws every element once, in its group, with its name and loop, and exactly the dependencies, the sequence of clusters and the members of conditions, in an initialised pipeline or during an execution just the same, and leaves the format of the stream as it was. perf() executes the pipeline once like process() (initialisation, every element with its loops and aspects, destruction), shows for each element that executed the start, end, time per execution and total, and marks a path of maximal total time. Afterwards, and also if an element fails or throws in init, run or destroy (which is what perf() reports), the pipeline is what it was: same picture, no aspect or memory left, and it executes as before, any number of times. perf() of an initialised pipeline is refused. An element is named as registered, else as it was named when created, else by its session, and says truly whether it is a node, a group or an adapter.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "pictures: every graph of up to 5 elements with loops, every pair of nested groups; measurements: every graph of 3 elements and pair of nested groups with each engine, every assignment of 2–3 durations in virtual time to graphs of up to 4 elements, failures of every element in every phase; schedules within one pre-emption (thorough: 2)",
  "tests print the picture and look at nothing; the failing paths of perf() are never executed",
  ["src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp", "src/GraphCtrl/GraphPipeline/_GPerf/GPerfAspect.h", "src/GraphCtrl/GraphPipeline/GPipeline.cpp", GE + "GElement.cpp", GE + "GGroup/GCluster/GCluster.cpp", GE + "GGroup/GRegion/GRegion.cpp", GE + "GGroup/GCondition/GCondition.cpp"],
  [("GPipeline::dump, perf", "src/GraphCtrl/GraphPipeline/GPipeline.cpp"), ("GPerf::perf, inject, recover", "src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp")],
  ["text of the picture", "executions", "memory given back", "format flags of the stream"])

p("C35", "A wrong description of a graph is refused and leaves no trace",
  "Every call that describes a graph wrongly (a dependency that is null, inside a group, or of another pipeline; a second registration; a group that is null, of another type, with a null member, or part of another group; a wrong kind of element) returns an error or throws, at once or at the latest in init(), and changes nothing: the picture is the same, no object or memory is left behind, members of a refused group can be used again, and the pipeline executes exactly what was accepted, no element of another pipeline. Everything a pipeline was given or created (elements, groups, aspects, daemons, events, stages, parameters) is freed exactly once when it is removed, at whatever point of its life, and its threads end.",
  ["inputs", "histories", "programs"],
  "25 kinds of wrong calls, every pair of them, each engine and group type, followed by an execution (thorough: every schedule within one pre-emption); every subset of 6 sorts of things given to a pipeline x 6 points of its life x 3 ways to remove it",
  "tests describe graphs correctly; what a refused call leaves behind shows only in a later execution or in the memory",
  ["src/GraphCtrl/GraphPipeline/GPipeline.inl", "src/GraphCtrl/GraphPipeline/GPipeline.cpp", GE + "GElement.cpp", GE + "GGroup/GGroup.cpp", GE + "GElementRepository.cpp"],
  [("GPipeline::registerGElement, createGNode, createGGroup", "src/GraphCtrl/GraphPipeline/GPipeline.inl"), ("GElement::addDependGElements, addElementInfo", GE + "GElement.cpp")],
  ["statuses and exceptions", "text of the picture", "objects and memory", "executions"])

p("C36", "Preparation, result check and visibility: once each, and errors stop dependents",
  "prepareRun of an element is called exactly once per initialisation, in the first run and before its first execution, when its dependencies have finished; if it fails, run() returns that error, neither the element nor its dependents execute, and it is called again in the next run. "
  "checkRunResult is called once each time the element has finished all of its executions (in every iteration of a looping group), before any dependent begins; if it fails, run() returns an error with its text, the dependents do not execute, and the next run is normal. "
  "An element or group that is not visible is not initialised, executed or terminated, and no hook of it is called; everything else is unaffected, and what depends on it waits for what it depends on; when it is made visible again before the next init() it takes part again.",
  ["programs", "schedules", "fault_sequences", "histories"], "every bounded graph, group, engine, failing element, set of invisible elements and schedule, over several runs and initialisations",
  "The tests use none of the three; what a failing preparation or check lets through depends on engine, graph and schedule.",
  [GE + "GElement.cpp", "src/CBasic/CFuncType.h", GE + "_GEngine/GDynamicEngine/GDynamicEngine.cpp"],
  [("preparation, check, visibility", GE + "GElement.cpp fatProcessor")], ["GElement::prepareRun, checkRunResult, setVisible", "status of GPipeline::run"])

p("C37", "Tasks spawned by a node execute once, within the node, wherever it is",
  "spawn(), called by a node while it executes, returns success exactly if all tasks of the group have finished within the smaller of the two limits, with their writes visible to the node and its dependents, and otherwise an error at the limit; each task is executed exactly once, late ones too, and the group's callback is called once, with the same status. "
  "This holds for nodes that spawn at once, in loops and runs, as members of groups of every kind and depth, with each engine, own or shared pool and schedule, given a thread besides those of the nodes that wait; a pipeline made serial executes the tasks in the node's thread. A task that throws affects neither the other tasks nor the node. A node that is not initialised is refused, and none of its tasks executes. "
  "A node sees the index of the thread that executes it.",
  ["programs", "schedules", "configurations"], "every graph of two nodes, every kind of group, engine, loop, number of tasks, limits in virtual time, with every schedule within the pre-emption bounds",
  "No test calls spawn(); whether a task is lost, late or executed outside of its node depends on the schedule and on where the node is.",
  [GE + "GNode/GNode.cpp", GE + "GGroup/GGroup.cpp", "src/UtilsCtrl/ThreadPool/UThreadPool.cpp", "src/UtilsCtrl/ThreadPool/Task/UTaskGroup.h"],
  [("spawn, initialised", GE + "GNode/GNode.cpp spawn"), ("members of groups are initialised", GE + "GGroup/GGroup.cpp init, destroy")], ["GNode::spawn, getThreadIndex", "UTaskGroup tasks and callback"])

p("C38", "Domain nodes execute the function chosen for them; random data, counters",
  "In each iteration a domain (ANN) node asks its preparation once which function to execute, executes exactly that one, and then, if it succeeded, refreshes its parameters; a choice that names no function, and a function the node does not provide, is an error, and the error or exception of any of these ends the element like that of any other node: its dependents do not execute, and the next run is normal. Domain nodes that execute at once do not affect each other. "
  "Random vectors have the dimensions asked for, whatever was in them, and values within the range, and are the same again for a fixed seed. A time counter tells the time since its creation or last reset, and the reset restarts it.",
  ["programs", "inputs", "schedules"], "every function and illegal choice, in loops, groups and with each engine, with each failure; all small dimensions, ranges and generators; every sequence of four calls of two counters, in virtual time",
  "The domain layer, the generators and the counters are used by no test with an assertion.",
  ["src/DomainCtrl/Ann/DAnnNode.cpp", "src/DomainCtrl/Ann/DAnnNode.h", "src/DomainCtrl/Ann/DAnnParam.h", "src/UtilsCtrl/Random/URandom.h", "src/UtilsCtrl/Timer/UTimeCounter.h"],
  [("domain nodes", "src/DomainCtrl/Ann/DAnnNode.cpp run"), ("random data", "src/UtilsCtrl/Random/URandom.h"), ("counters", "src/UtilsCtrl/Timer/UTimeCounter.h")], ["DAnnNode callbacks", "URandom::generate", "UTimeCounter::getSpan, reset"])

# properties decided on sequential programs only (no thread schedule involved), and notes for the manifest
SEQUENTIAL = set()
NOTES = {}
NA = {}
