#!/usr/bin/env python3
"""tools/mutate.py WORKTREE STATE [--files REGEX] [--ops REGEX] [--max N] [--minutes M] [--seed S]
Development tool (no check uses it): applies small mutations to a scratch clone of /repo, one at a time, and runs the quick
checks of the properties anchored in the file, then a core set, until one reports a violation. STATE (json lines) is resumed."""
import argparse, json, os, random, re, subprocess, sys, time
ap = argparse.ArgumentParser(); ap.add_argument("tree"); ap.add_argument("state"); ap.add_argument("--files", default="."); ap.add_argument("--ops", default=".")
ap.add_argument("--max", type=int, default=10**9); ap.add_argument("--minutes", type=float, default=1e9); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--list", action="store_true")
a = ap.parse_args()
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ["C01", "C05", "C06", "C29", "C33", "C35"]
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
anch = {}
for p in props:
    for f in json.dumps(p).split('"'):
        if f.startswith("src/"): anch.setdefault(f, []).append(p["id"])
def related(f):
    st = re.sub(r"\.(cpp|h|inl)$", "", f); out = []
    for k, v in anch.items():
        if re.sub(r"\.(cpp|h|inl)$", "", k) == st: out += v
    if not out:
        d = os.path.dirname(f)
        for k, v in anch.items():
            if os.path.dirname(k) == d: out += v
    seen = []
    for x in out + CORE:
        if x not in seen: seen.append(x)
    return seen
SWAP = [("eq", r"==", "!="), ("ne", r"!=", "=="), ("lt", r"(?<![<\-])<(?![<=])(?= )", "<="), ("gt", r"(?<![>\-])>(?![>=])(?= )", ">="), ("le", r"<=", "<"), ("ge", r">=", ">"), ("and", r"&&", "||"), ("or", r"\|\|", "&&"),
        ("true", r"\btrue\b", "false"), ("false", r"\bfalse\b", "true"), ("mo", r"memory_order_(acquire|release|acq_rel|seq_cst)", "memory_order_relaxed"), ("all", r"notify_all", "notify_one"),
        ("inc", r"\+\+", "--"), ("plus1", r"\+ 1\b", ""), ("minus1", r"- 1\b", ""), ("max", r"std::max\b", "std::min"), ("min", r"std::min\b", "std::max"), ("pluseq", r"\+=", "="), ("first", r"\.begin\(\)", ".end()"), ("front", r"push_back", "push_front"), ("one", r"\b1\b", "2")]
def mutants():
    for d, ds, fs in sorted(os.walk(a.tree + "/src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), a.tree)
            if not re.search(a.files, p) or not re.search(r"\.(cpp|h|inl)$", f): continue
            L = open(os.path.join(a.tree, p)).read().split("\n"); block = False
            for i, l in enumerate(L):
                s = l.strip()
                if "/*" in s and "*/" not in s: block = True; continue
                if block: block = "*/" not in s; continue
                if not s or s.startswith(("//", "*", "#", "/*", "friend", "using", "template", "class", "struct", "typedef", "static_assert", "public:", "private:")): continue
                code = l.split("//")[0]
                if len(code) - len(code.lstrip()) >= 4 and code.rstrip().endswith(";") or re.match(r"\s+CGRAPH_(FUNCTION_CHECK|ASSERT|LOCK|RETURN_ERROR|THROW)\w*\b.*\)?$", code.rstrip()):
                    if not re.match(r"\s*(return\b(?!;)|[\w:<>\*& ]+ [\w\*&]+( = .*|\{.*\})?;$|break;|continue;)", code) or re.match(r"\s*(return;|break;|continue;|\w+ = )", code):
                        if code.count("(") == code.count(")"): yield ("del", p, i, "")
                m = re.match(r"^(\s*(?:\} else )?(?:if|while) )\((.*)\) \{\s*$", code)
                if m: yield ("neg", p, i, "%s(!(%s)) {" % m.groups())
                for op, rx, to in SWAP:
                    if op in ("lt", "gt") and ("template" in l or "std::" in l and op == "gt"): continue
                    for k, m in enumerate(re.finditer(rx, code)):
                        yield (op + str(k), p, i, code[:m.start()] + to + code[m.end():])
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
done = {}
if os.path.exists(a.state):
    for l in open(a.state): r = json.loads(l); done[r["key"]] = r
M = [m for m in mutants() if re.search(a.ops, m[0])]; random.Random(a.seed).shuffle(M)
if a.list: print(len(M)); sys.exit()
t0 = time.time(); n = 0
for op, p, i, new in M:
    path = os.path.join(a.tree, p); src = open(path).read(); L = src.split("\n"); old = L[i]; key = "%s:%s:%d:%s" % (op, p, i + 1, old.strip())
    if key in done: continue
    if n >= a.max or time.time() - t0 > a.minutes * 60: break
    n += 1; L[i] = new; open(path, "w").write("\n".join(L)); res = {"key": key, "new": new.strip(), "by": None, "ran": []}
    try:
        g = sh("find %s/src -name '*.cpp' | sort | sed 's/.*/#include \"&\"/' | clang++ -std=c++17 -w -fsyntax-only -D_CGRAPH_SILENCE_ -I%s/src -x c++ -" % (a.tree, a.tree))
        if g.returncode: res["by"] = "compile"
        else:
            for c in related(p):
                r = sh("python3 run.py %s quick" % c, cwd=ROOT, env=dict(os.environ, VERIF_REPO=a.tree)); res["ran"].append(c)
                if r.returncode: res["by"] = c if r.returncode == 1 else "%s(rc %d)" % (c, r.returncode); res["why"] = [l for l in r.stdout.split("\n") if "violated in" in l or "VIOLATION" in l or l][-2:]; break
    finally: open(path, "w").write(src)
    sh("rm -rf %s/build/cache/*" % ROOT) if len(os.listdir(ROOT + "/build/cache")) > 3 else None
    open(a.state, "a").write(json.dumps(res) + "\n"); print(res["by"] or "SURVIVED", key, "=>", res["new"], flush=True)
