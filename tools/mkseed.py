"""mkseed(id, prop, edits=[(file, old, new)], needs, breaks, demo_cpp)"""
import os, subprocess, json
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 iff the demonstrated behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
find "$PWD/src" -name '*.cpp' | sort | sed 's/.*/#include "&"/' > "$t/all.cpp"
g++ -std=c++17 -O1 -w -I"$PWD/src" -D_CGRAPH_SILENCE_ -c "$t/all.cpp" -o "$t/all.o" &
g++ -std=c++17 -O1 -w -I"$PWD/src" -D_CGRAPH_SILENCE_ -c "$here/demo.cpp" -o "$t/demo.o" || exit 3
wait %1 || exit 3
g++ "$t/all.o" "$t/demo.o" -o "$t/demo" -lpthread || exit 3
timeout 120 "$t/demo"
'''
def mkseed(id, prop, edits, needs, breaks, demo):
    r = "/tmp/w"
    if not os.path.exists(r): subprocess.check_call(["git", "-C", "/repo", "worktree", "list"]); subprocess.check_call(["git","clone","-q","/repo",r])
    subprocess.check_call("git -C /tmp/w fetch -q && git -C /tmp/w checkout -q -f origin/HEAD", shell=True)
    for f, old, new in edits:
        p = os.path.join(r, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True); assert diff
    open(d + "/patch.diff", "w").write(diff)
    subprocess.check_call("git -C /tmp/w checkout -q -- .", shell=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(DEMO_SH); open(d + "/demo.cpp", "w").write(demo)
    print("made", id)
