#!/usr/bin/env python3
"""Development tool: turns tools/seeds/*.py into /verif/seeded/<id>/ after confirming each planted bug
in a scratch copy (it applies, builds, passes the tests, its demo passes without and fails with it).
  seed.py make [ids]     confirm and write
  seed.py catch [ids]    run the property's quick check against each, print who catches what
Nothing here is used by the checks."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/vp-seedwork"
SEEDS = {}
HEAD = r'''
#include <columbus.hh>
#include <LevenshteinIndex.hh>
#include <IndexMatches.hh>
#include <ErrorMatrix.hh>
#include <WordStore.hh>
#include <Trie.hh>
#include <ColumbusHelpers.hh>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <thread>
using namespace Columbus;
using std::string; using std::vector; using std::to_string;
#define CHECK(x) do { if(!(x)) { fprintf(stderr, "failed, line %d: %s\n", __LINE__, #x); exit(1); } } while(0)
#define THROWS(x) do { bool t_ = false; try { x; } catch(std::exception &) { t_ = true; } if(!t_) { fprintf(stderr, "no exception, line %d: %s\n", __LINE__, #x); exit(1); } } while(0)
'''
SRC = r'''#!/bin/bash
# cwd is the repository, built. Exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
export COLUMBUS_DATADIR=$PWD/share ASAN_OPTIONS=detect_leaks=0
'''
LIB = SRC + r'''g++ -std=c++11 -O1 -w -pthread -Iinclude -I_build/include "$here/demo.cc" -L_build/src -lcolumbus -Wl,-rpath,"$PWD/_build/src" -o "$out/demo" || exit 2
cd "$out" && timeout 250 ./demo
'''
SAN = SRC + r'''for f in src/*.cc "$here/demo.cc"; do
  g++ -std=c++11 %s -w -fPIC -DBUILDING_COLUMBUS -Iinclude -I_build/include -c "$f" -o "$out/$(basename "$f").o" &
done
wait
g++ %s -pthread "$out"/*.o -licuuc -o "$out/demo" || exit 2
cd "$out" && timeout 250 ./demo
'''
def flags(f): return SAN % (f, f)
KINDS = dict(lib=LIB, asan=flags("-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all"), ndebug=flags("-O2 -DNDEBUG"),
             tsan=flags("-g -O1 -fsanitize=thread"),
             u32=flags("-g -O1").replace("for f in", """mkdir "$out/inc"
sed -e 's/typedef uint16_t Letter_;/typedef uint32_t Letter_;/' -e 's/"UTF-16LE"/"UTF-32LE"/' _build/include/ColumbusCore.hh > "$out/inc/ColumbusCore.hh"
for f in""").replace("-Iinclude -I_build/include", '-Iinclude -I"$out/inc"'),
             py=SRC + 'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/_build/python\ntimeout 250 /usr/bin/python3 "$here/demo.py"\n')

def S(id, prop, edits, needs, breaks, demo, kind="lib", sh=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, kind=kind, sh=sh)

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def tree(n):
    d = "%s/%s" % (W, n)
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        sh(["git", "clone", "-q", "/repo", d], "/")
        r = sh("cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -Denable_tests=ON "
               "-DBOOST_PYTHON_HACK=/usr/lib/x86_64-linux-gnu/libboost_python312.so && ninja -C _build", d,
               env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
        assert r.returncode == 0, r.stdout[-2000:]
        s = open("/opt/vp/pytests.py").read().replace("/repo/", d + "/")
        open(d + "/_build/pytests.py", "w").write(s)
    else:
        sh("git checkout -q . && git pull -q", d)
    return d

def write(id, s, d, repo):
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write(SRC + s["sh"] if s["sh"] else KINDS[s["kind"]])
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + ("/demo.py" if s["kind"] == "py" else "/demo.cc"), "w") as f:
        f.write(s["demo"] if s["kind"] == "py" else HEAD + s["demo"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)

def demo(d, repo):
    return sh(["bash", d + "/demo.sh"], repo)

def make(id, repo):
    s = SEEDS[id]
    stage = "%s/stage-%s" % (W, id)
    shutil.rmtree(stage, ignore_errors=True)
    write(id, s, stage, repo)
    try:
        sh("git checkout -q .", repo)
        r = sh("ninja -C _build", repo)
        r = demo(stage, repo)
        if r.returncode:
            return "demo fails unpatched (%d): %s" % (r.returncode, r.stdout[-600:])
        for f, old, new in s["edits"]:
            t = open(repo + "/" + f).read()
            if t.count(old) != 1:
                return "%s: %d matches of %r" % (f, t.count(old), old[:60])
            open(repo + "/" + f, "w").write(t.replace(old, new))
        # must touch a line of the base
        r = sh("git diff -U0", repo)
        base = 0
        for f in {e[0] for e in s["edits"]}:
            bl = sh(["git", "blame", "-s", "HEAD", "--", f], repo).stdout.splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", f], repo).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    base += bl[i - 1].startswith("^deea973") or bl[i-1].split()[0] in BASE
        if not base:
            return "touches no line of the original"
        r = sh("ninja -C _build", repo)
        if r.returncode:
            return "does not build: " + r.stdout[-800:]
        r = sh("ctest --test-dir _build -j4 --timeout 120 -E '^python$'", repo, env=dict(os.environ, COLUMBUS_DATADIR=repo + "/share"))
        if r.returncode:
            return "tests fail: " + r.stdout[-600:]
        r = sh("python3 _build/pytests.py", repo, env=dict(os.environ, COLUMBUS_DATADIR=repo + "/share", PYTHONPATH=repo + "/_build/python", PYTHONDONTWRITEBYTECODE="1"))
        if "FAIL" in r.stdout or "PASS" not in r.stdout:
            return "python tests fail: " + r.stdout[-600:]
        r = demo(stage, repo)
        if r.returncode == 0:
            return "demo does not notice"
        note = "ok (%d) %s" % (r.returncode, r.stdout.strip().splitlines()[-1][:100] if r.stdout.strip() else "")
        if r.returncode == 2 and "failed, line" not in r.stdout and "ERROR" not in r.stdout: note = "COMPILE? " + r.stdout[-500:]
        open(stage + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        dst = V + "/seeded/" + id
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(stage, dst)
        return note
    finally:
        sh("git checkout -q .", repo)
        shutil.rmtree(stage, ignore_errors=True)

BASE = set()
def main():
    import builtins
    for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
        exec(compile(open(f).read(), f, "exec"), dict(S=S))
    BASE.update(sh("git rev-list deea973 --abbrev-commit", "/repo").stdout.split())
    BASE.update(x[:7] for x in list(BASE)); BASE.update(x[:8] for x in sh("git rev-list deea973", "/repo").stdout.split())
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(SEEDS)
    if mode == "make":
        trees = [tree("t%d" % i) for i in range(4)]
        lock = threading.Lock()
        def job(i):
            with lock: t = trees.pop()
            try: r = make(i, t)
            finally:
                with lock: trees.append(t)
            print(i, "->", r.replace("\n", " | ")[:260], flush=True)
        with concurrent.futures.ThreadPoolExecutor(4) as ex: list(ex.map(job, ids))
    elif mode == "catch":
        ids = [i for i in (sys.argv[2:] or sorted(os.listdir(V + "/seeded")))]
        t = tree("c0")
        for i in ids:
            p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
            sh("git checkout -q .", t)
            a = sh(["git", "apply", V + "/seeded/%s/patch.diff" % i], t)
            if a.returncode: print(i, "patch does not apply"); continue
            r = sh(["timeout", "900", "python3", V + "/run.py", p], V, env=dict(os.environ, VP_REPO=t, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", (v or r.stdout.splitlines()[-1:] or [""])[0][:150], flush=True)
        sh("git checkout -q .", t)
main()
