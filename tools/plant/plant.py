"""tools/plant/plant.py LIST.py [only...]: LIST.py defines L = [(name, props, file, old, new)...]; each is applied to a clone and the quick checks run"""
import sys, os, subprocess, concurrent.futures as cf, shutil
L = []; ns = {}; exec(open(sys.argv[1]).read(), ns); L = ns["L"]; only = sys.argv[2:]
def one(x):
    name, props, edits = x[0], x[1], x[2:]
    d = "/tmp/q." + name; shutil.rmtree(d, ignore_errors=True); subprocess.check_call(["git", "clone", "-q", "/repo", d])
    try:
        for f, o, n in zip(edits[::3], edits[1::3], edits[2::3]):
            p = d + "/" + f
            if not os.path.exists(p): return name, "NO FILE " + f
            s = open(p).read()
            if s.count(o) != 1: return name, "text occurs %d times" % s.count(o)
            open(p, "w").write(s.replace(o, n))
        out = []
        for pr in props.split():
            r = subprocess.run(["python3", "run.py", pr, "quick"], cwd=os.environ.get("QV", os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))), env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            w = [l for l in r.stdout.splitlines() if l.startswith("violated")]
            out.append("%s rc=%d %s" % (pr, r.returncode, (w[0] if w else r.stdout.strip().splitlines()[-1] if r.returncode not in (0, 1) else "")[:170]))
            if r.returncode == 1: break
        return name, " | ".join(out)
    finally: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("QN","3"))) as ex:
    for f in cf.as_completed([ex.submit(one, x) for x in L if not only or x[0] in only]):
        n, r = f.result(); print(("caught " if "rc=1" in r else "MISSED ") + n + ": " + r, flush=True)
