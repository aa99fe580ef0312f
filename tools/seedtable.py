#!/usr/bin/env python3
"""writes the table of planted bugs into DESIGN.md"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY = {"aspect-late-check": "hooks", "callback-only-on-success": "groups_late", "clear-keeps-connections": "fan_1_2", "cluster-runs-on": "failing", "depend-inside-group": "refusals",
"event-ended-before-awaited": "one_each", "fetch-empty-outside-lock": "hand_out_2x2_1", "finish-init-only-on-success": "hooks", "load-forgets-strategy": "time_limit", "lru-get-keeps-place": "lru_3",
"max-para-prunes-too-much": "graphs_3", "multicond-early-return": "failing_parallel", "mutable-loop-kept": "shapes2", "param-setup-last-wins": "several_setups", "ring-wake-only-if-full": "flow_2_1",
"secondary-unlimited": "history_4", "serial-chain-runs-on": "all_dags4_masks", "singleton-stays-init": "singletons", "some-overrides-limit": "some_member", "spin-unlock-relaxed": "spin_2x1",
"status-sum-mixes": "two_statuses", "steal-batch-overwritten": "stolen_3", "submit-ttl-per-task": "groups_late", "timeout-one-level": "late_group", "timer-interval-sticks": "at_intervals",
"trim-only-earlier": "graphs_4_plain", "static-early-return": "", "dynamic-stale-countdown": "", "fatwait-unlocked-notify": ""}
T = ["| planted | breaks | what happens | needs | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, s))); c = lambda x: " ".join(str(x).replace("|", "/").split())
    T.append("| %s | %s | %s | %s | %s |" % (s, m["property"], c(m["what_it_breaks"]), c(m["needs"]), (m["property"] + " " + BY.get(s, "")).strip()))
f = ROOT + "/DESIGN.md"; d = open(f).read(); a, b = "<!-- seeds begin -->\n", "<!-- seeds end -->"
open(f, "w").write(d[:d.index(a) + len(a)] + "\n" + "\n".join(T) + "\n\n" + d[d.index(b):])
