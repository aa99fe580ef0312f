#!/usr/bin/env python3
"""Model-checks one property of CGraph on the real code of /repo's working tree.

usage: run.py PROPERTY quick|thorough [--scenario NAME] [--keep]
Exit 0: held on everything explored (listed findings are printed as KNOWN-FINDING lines).
Exit 1: a violation that is not listed, with a line VIOLATION property=<id> replay=<path>.
Exit 3: the check could not give an answer.
"""
import concurrent.futures as cf
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(ROOT, "mc")
HARN = os.path.join(ROOT, "harness")
CXX = ["clang++", "-std=c++17", "-D_GLIBCXX_ASSERTIONS", "-O1", "-g1", "-fno-pie", "-w", "-fsanitize=thread", "-mllvm",
       "-tsan-instrument-func-entry-exit=0", "-I" + MC, "-I" + HARN, "-I" + REPO + "/src",
       "-D_CGRAPH_SILENCE_", "-D_ENABLE_LIKELY_"]
JOBS = min(8, os.cpu_count() or 8)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(out)


def tree_key():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), MC):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(" ".join(CXX).encode())
    return h.hexdigest()[:24]


def build(prop, work):
    """Compiles /repo/src, the runtime and the property's scenarios; returns the executable."""
    srcs = sources()
    cache = os.path.join(ROOT, "build", "cache", tree_key())   # ignored by git; keyed by the content of every source
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    hsrc = os.path.join(HARN, prop.lower() + ".cpp")
    rt_o, h_o, stl_o = (os.path.join(work, f) for f in ("rt.o", "h.o", "stl.o"))
    jobs = [(["g++", "-std=c++17", "-O2", "-g", "-fno-pie", "-w", "-I" + MC, "-c", os.path.join(MC, "rt.cpp"), "-o", rt_o], None),
            (CXX + ["-c", hsrc, "-o", h_o], None), (CXX + ["-c", os.path.join(MC, "stl.cpp"), "-o", stl_o], None)]
    objs, groups = [], []
    use_cache = os.environ.get("VERIF_CACHE", "1") == "1"
    if use_cache and os.path.exists(os.path.join(cache, "ok")):
        objs = [os.path.join(cache, f) for f in sorted(os.listdir(cache)) if f.endswith(".o")]
    else:
        for i in range(JOBS):
            g = srcs[i::JOBS]
            if g:
                u = os.path.join(work, "u%d.cpp" % i)
                with open(u, "w") as fh:
                    fh.write("".join('#include "%s"\n' % s for s in g))
                o = os.path.join(work, "u%d.o" % i)
                jobs.append((CXX + ["-c", u, "-o", o], g))
                groups.append(o)

    def one(job):
        cmd, grp = job
        r = sh(cmd)
        if r.returncode == 0:
            return [cmd[-1]]
        if grp is None:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout)
        outs = []          # the sources do not compile as one unit: one by one
        for s in grp:
            o = os.path.join(work, hashlib.sha1(s.encode()).hexdigest()[:12] + ".o")
            r = sh(CXX + ["-c", s, "-o", o])
            if r.returncode:
                raise BuildError(s + "\n" + r.stdout)
            outs.append(o)
        return outs

    with cf.ThreadPoolExecutor(JOBS + 2) as ex:
        res = list(ex.map(one, jobs))
    if groups:
        objs = sum(res[3:], [])
        if use_cache:
            tmp = tempfile.mkdtemp(dir=os.path.join(ROOT, "build"))
            for i, o in enumerate(objs):
                shutil.copy(o, os.path.join(tmp, "o%02d.o" % i))
            open(os.path.join(tmp, "ok"), "w").close()
            try:
                os.makedirs(os.path.dirname(cache), exist_ok=True)
                os.rename(tmp, cache)
                olds = sorted((os.path.getmtime(os.path.join(ROOT, "build", "cache", d)), d) for d in os.listdir(os.path.join(ROOT, "build", "cache")))
                for _, d in olds[:-4]:
                    shutil.rmtree(os.path.join(ROOT, "build", "cache", d), ignore_errors=True)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    exe = os.path.join(work, "mc")
    r = sh(["g++", "-no-pie", rt_o, h_o, stl_o] + objs + ["-o", exe, "-lpthread"])
    if r.returncode:
        raise BuildError(r.stdout)
    return exe


def run_scenario(exe, work, name, p, d, secs, known):
    out = os.path.join(work, name + ".json")
    cmd = ["setarch", "-R", exe] if shutil.which("setarch") and os.environ.get("VERIF_NOASLR") else [exe]
    cmd += ["--scenario", name, "--p", str(p), "--d", str(d), "--workers", str(JOBS), "--time", "%.1f" % secs, "--json", out]
    for k in known:
        cmd += ["--known", k]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        with open(out) as fh:
            j = json.load(fh, strict=False)
    except Exception as e:  # noqa
        j = {"scenario": name, "internal_error": "no result (rc %d): %s" % (r.returncode, (r.stderr or str(e))[-400:])}
        return 4, j
    return r.returncode, j


def write_replay(path, prop, name, j):
    with open(path, "w") as fh:
        fh.write("# property %s: %s\n" % (prop, j["violation"].replace("\n", " ")))
        fh.write("# replay with: python3 /verif/replay.py %s %s\n" % (prop, path))
        fh.write("scenario %s\n" % name)
        for i, v in j["choices"]:
            fh.write("choice %d %d\n" % (i, v))
        for a in j.get("racy", []):
            fh.write("racy %s\n" % a)
        for a in j.get("shared", []):
            fh.write("shared %s\n" % a)


def main():
    if "--setup" in sys.argv:       # nothing to prepare: every check builds what it needs; only tells early if a compiler is missing
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        for c in (["clang++", "--version"], ["g++", "--version"]):
            r = sh(c)
            print(r.stdout.split("\n")[0])
            if r.returncode:
                return 3
        return 0
    if len(sys.argv) < 3:
        print(__doc__)
        return 3
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[sys.argv.index("--scenario") + 1] if "--scenario" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    # overall budget of the exploration, in seconds
    budget = float(os.environ.get("VERIF_BUDGET", "80" if tier == "quick" else "700"))
    known = []
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as fh:
            known = [k for k in json.load(fh)["findings"] if k["property"] == prop]
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(ROOT, "build"))
    os.environ["MC_SCRATCH"] = work       # scenarios that use files keep them there
    try:
        try:
            exe = build(prop, work)
        except BuildError as e:
            print("the code or the scenarios of %s do not build:\n%s" % (prop, str(e)[-3000:]))
            return 3
        tb = time.time() - t0
        lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        scen = []
        for ln in lst:
            f = ln.split()
            if len(f) == 5 and (only is None or f[0] == only):
                pq, dq, pt, dt = map(int, f[1:])
                p, d = (pq, dq) if tier == "quick" else (pt, dt)
                if p >= 0:
                    scen.append((f[0], p, d))
        scen.reverse()
        res, rc, viol = [], 0, None
        hits = {}
        for i, (name, p, d) in enumerate(scen):
            left = budget - (time.time() - t0 - tb)
            secs = max(4.0, left * 0.4 if i < len(scen) - 1 else left)
            ks = [k["signature"] for k in known if k["scenario"] in ("*", name)]
            r, j = run_scenario(exe, work, name, p, d, secs, ks)
            if r == 4 or "internal_error" in j:     # once more, before giving up
                print("scenario %s: %s; retrying" % (name, j.get("internal_error", "?")))
                r, j = run_scenario(exe, work, name, p, d, secs, ks)
            res.append(j)
            for h in j.get("known_hits", []):
                hits[h["sig"]] = hits.get(h["sig"], 0) + h["n"]
            if only or os.environ.get("VERIF_VERBOSE"):
                print("  %-28s rc=%d complete=%s bound=%s execs=%s states=%s points<=%s racy=%s outcomes=%s %.1fs%s" % (
                    name, r, j.get("complete"), j.get("bound_completed"), j.get("executions"), j.get("states"), j.get("max_points"),
                    j.get("racy_sites"), j.get("distinct_outcomes"), j.get("wall_s", 0), "  " + j["violation"] if "violation" in j else ""), flush=True)
            if r == 1 and "violation" in j:
                path = os.path.join(ROOT, "evidence", "%s-%s.replay" % (prop, name))
                write_replay(path, prop, name, j)
                rr = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                with open(path + ".trace", "w") as fh:
                    fh.write(rr.stdout[-200000:])
                if rr.returncode == 1 and "REPLAY violation" in rr.stdout:
                    viol = (name, j["violation"], path)
                    rc = 1
                    break
                print("scenario %s: a reported violation did not replay (%s); not counted as a verdict" % (name, j["violation"]))
                rc = 3
            elif r not in (0, 1):
                print("scenario %s: no answer: %s" % (name, j.get("internal_error", "rc %d" % r)))
                rc = 3
        if not scen:
            print("no scenario")
            rc = 3
        samples = []
        for j in res:
            for s in j.get("samples", [])[:2]:
                samples.append({"scenario": j["scenario"], "scheduling_points": s["points"], "deviations_from_default_schedule [point,choice]": s["choices"]})
        outcomes = {j["scenario"]: [o["o"] for o in j.get("outcomes", [])][:6] for j in res if j.get("outcomes")}
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(j.get("states", 0) or j.get("executions", 0) for j in res),
                "transitions": sum(j.get("transitions", 0) or j.get("executions", 0) for j in res),
                "traces_validated_against_impl": sum(j.get("executions", 0) for j in res),
                "exhaustive": all(j.get("complete") for j in res) and rc == 0,
                "rule": "every execution is an execution of the real code (no separate model): states = distinct happens-before trace prefixes, "
                        "transitions = steps between scheduling points (where a scenario has no concurrency: one final state per enumerated choice sequence); all schedules within the stated preemption/deviation bound and all data choices",
                "scenarios": [{k: j.get(k) for k in ("scenario", "complete", "bound_requested", "bound_completed", "rounds", "executions", "states",
                                                       "transitions", "pruned", "discarded", "max_points", "max_threads", "racy_sites", "shared_objects",
                                                       "distinct_outcomes", "wall_s")} for j in res],
                "outcomes": outcomes,
                "samples": samples[:24] or [{"scenario": s[0]} for s in scen],
                "known_findings_hit": hits,
            },
            "assumptions": ["values read are those of sequentially consistent executions; what weaker memory orders add is covered by the happens-before check of handed-over data, not by stale values",
                            "preemption / deviation bounds per scenario as listed", "libstdc++ and libc calls outside the instrumented code are atomic steps"],
            "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
        }
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if rc == 1:
            print("violated in scenario %s: %s" % (viol[0], viol[1]))
            print("VIOLATION property=%s replay=%s" % (prop, viol[2]))
            return 1
        inc = [j["scenario"] for j in res if not j.get("complete")]
        print("%s %s: %d scenarios, %d executions, %d states, bounds %s, %.1fs (build %.1fs)" % (
            prop, tier, len(res), ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["states"],
            "complete" if not inc else "not reached in: " + " ".join(inc), time.time() - t0, tb))
        return rc
    finally:
        if "--keep" in sys.argv:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
