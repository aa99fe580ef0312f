#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md (between the markers) from props.py, the harnesses and the table below."""
import os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + "/tools")
import props
O = {
"C01": "a monitor in every node body: executing twice, overlapping itself, or starting before a dependency's end in this run is a violation; each body writes a plain variable that its dependents read, so a missing happens-before edge is a data race and reported",
"C02": "a flag that is set after run() returned: a body that is active then, or begins later, is a violation; the caller reads what the bodies wrote (race = violation)",
"C03": "no reachable state in which the caller is blocked and nothing can run (deadlock), and no execution that only proceeds because a timed wait expired; virtual time must be 0 at the end",
"C04": "reference: the set of elements that can have executed given the failing ones; the status must be one of the failing elements' own; next run complete",
"C05": "the exception's text must be in the returned crash status, the crashed() hook is called, no exception leaves the pool's threads, and the next run is whole; which calls may throw is stated per scenario",
"C06": "reference life-cycle automaton per element (not initialised / initialised), called in level order, once per transition; the statuses of calls in the wrong state",
"C07": "the counter of iterations, hold decisions and hooks compared with the sequence computed from the loop count and the hold answers",
"C08": "tree oracle (tree.h): happens-before closure of the nested groups computed independently from the description",
"C09": "the chosen index (in and out of range) gives the set of members that may execute, exactly once each",
"C10": "at the time the group's successor starts at least k members are finished; at the end of the run all are; next runs are whole",
"C11": "executions after each reshape compared with the graph the reshape described (order, count), a cycle is an error",
"C12": "virtual time: the element's end or its limit decides status, state and time of the continuation exactly",
"C13": "functions called once per life-cycle step; singletons one object and init once over all pipelines; coordinators run at most n bodies at a time and all of them",
"C14": "what executed is closed under dependencies, nothing begins after cancel() and the return, error code/status; next run complete",
"C15": "while suspended (after the bodies in progress ended) nothing begins; after resume() everything executes exactly once and run() succeeds",
"C16": "the expected sequence of hooks for each callback incl. status passed to the finish hook; a failing begin hook suppresses the callback",
"C17": "map of keys: same object for every finder, creation is atomic (one winner), setup/reset once per run, type conflicts are errors",
"C18": "each trigger executes the event once; trigger types wait as asked; run()/destroy() wait where the strategy says so",
"C19": "in any completed prefix the number that left the stage is a multiple of its threshold and only those who entered leave",
"C20": "in virtual time the n-th execution is at n intervals; none before init() ended or after destroy() returned",
"C21": "linearisability of every history against a bounded FIFO queue with the three overflow strategies and time-outs",
"C22": "per connection the delivered sequence must be the published one (minus what the strategy drops); bind/detach/drop linearised",
"C23": "execution count 1 per task, future ready with the value, from whatever thread and place; a throwing task delivers its exception; indices and types of threads as documented",
"C24": "after destroy() no thread and no undecided future; a second life is complete; limits of secondary threads hold at every moment",
"C25": "the order of execution of one consumer equals the stable priority order of what was queued; groups: result, finish callback and timeout in virtual time",
"C26": "linearisability (lin.h) of all histories against sequential queues, deques, rings; weak operations only where documented",
"C27": "mutual exclusion monitors, token counting, and wake-up of waiting objects; data written under the lock must be ordered",
"C28": "monitor of the holder of each pipeline; sizes and returned statuses linearised",
"C29": "brute force over all topological orders / antichains / closures, compared with what trim, makeSerial, calcMaxPara, separate say; the schedule of an execution must agree",
"C30": "pictures and executions of the saved and the loaded pipeline compared; every prefix of a file must be refused or equal",
"C31": "sequential reference containers, distances in exact arithmetic; USingleton under all schedules",
"C32": "reference: pair (code, text) of the first error over all sequences of operations",
"C33": "the monitors of C01, C02 and C04 for each of the pipelines at once, plus the pool's own tasks",
"C34": "an independent parser of the picture; durations in virtual time; the graph's own longest path",
"C35": "picture, live objects and live bytes before and after the refused call; execution of what was accepted",
"C37": "a counter per task that must lie within its node's execution; the status compared with what has finished and with the limit, in virtual time",
"C38": "the sequence of calls per execution against a reference; values against dimensions, ranges and virtual time",
"C36": "calls of prepareRun and checkRunResult per element, relative to executions of the element and its neighbours; initialisations, executions, hooks of invisible elements",
}
def scen(i):
    t = open(os.path.join(ROOT, "harness", i.lower() + ".cpp")).read(); out = []
    for m in re.finditer(r"^MC_SCENARIO\(\s*(\w+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)\)", t, re.M):
        n, a, b, c, d = m.groups(); out.append("%s %s/%s" % (n, a if a != "-1" else "–", c))
    return ", ".join(out)
B = []
for p in props.P:
    i = p["id"]; B += ["### %s %s" % (i, p["title"]), "", "*Enumerated*: %s. *Oracle*: %s." % (p["quantifier"]["text"].rstrip("."), O.get(i, "the statement, as a monitor in the scenario")),
        "*Observed at*: %s. *Tests cannot*: %s" % ("; ".join(p["anchors"]["observe_at"]), p["why_tests_cant"].rstrip(".") + "."), "*Scenarios* (pre-emptions quick/thorough): %s." % (scen(i) or "see the harness's macros"), ""]
f = ROOT + "/DESIGN.md"; s = open(f).read(); a, b = "<!-- properties begin -->\n", "<!-- properties end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(B) + s[s.index(b):]; open(f, "w").write(s)
