#!/usr/bin/env python3
"""Create and confirm planted bugs from a batch file (developer tool, not a check).

  plant.py BATCH.py [id ...]

BATCH.py defines BUGS, a list of dicts: id, prop, edits=[(file, old, new[, count])], needs, breaks,
demo (C++ source), flags (extra compiler flags).  Each is written to /verif/seeded/<id>, applied to
/repo, built, tested, demonstrated, checked, and undone."""
import json, os, subprocess, sys, re, shutil
REPO, OUT = "/repo", "/verif/seeded"
PRELUDE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.h")).read()
DEMO = """#!/bin/bash
# run with cwd at the repository's top; builds the demonstration from src/ in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -g -w %s -Isrc -I"$D" "$D/demo.cpp" $(ls src/*.cpp%s) -o "$T/demo" || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
"""
PYDEMO = """#!/bin/bash
# run with cwd at the repository's top; builds the demonstration from src/ and python/bindings/ in a scratch directory,
# against the stand-in for pybind11 that lies beside this file
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/pybind11" && cp "$D/pybind11.h" "$D/stl_bind.h" "$D/functional.h" "$D/operators.h" "$D/pytypes.h" "$T/pybind11/" || exit 3
for f in "$D/demo.cpp" python/bindings/*.cpp; do g++ -std=c++14 -O0 -w -DPYBIND -Isrc -I"$D" -I"$T" -c "$f" -o "$T/$(basename "$f").o" & done
wait
g++ "$T"/*.o -o "$T/demo" || exit 3
cd "$T" && timeout 200 ./demo
"""
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def revert():
    sh("git -C /repo checkout -- .")
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo not clean"
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        d = os.path.join(OUT, b["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            ok = True; note = []
            for e in b["edits"]:
                f, old, new = e[:3]
                p = os.path.join(REPO, f); s = open(p).read()
                want = e[3] if len(e) > 3 else None
                n = s.count(old)
                if n == 0 or (want is None and n != 1):
                    ok = False; note.append("edit matches %d times in %s" % (n, f)); break
                if want is None or want == "all": s = s.replace(old, new)
                else:
                    i = -1
                    for _ in range(want): i = s.index(old, i + 1)
                    s = s[:i] + new + s[i + len(old):]
                open(p, "w").write(s)
            if not ok:
                print(b["id"], "SPEC-ERROR", note); continue
            diff = sh("git -C /repo diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            # removed lines must be original
            orig = True
            cur = None
            for l in sh("git -C /repo diff -U0").stdout.splitlines():
                if l.startswith("--- a/"): cur = l[6:]
                m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
                if m:
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    if n:
                        bl = sh("git -C /repo blame -s -L %d,+%d HEAD -- %s" % (a, n, cur)).stdout
                        for x in bl.splitlines():
                            if not x.lstrip("^").startswith("c7aa62f"[:7]): orig = False; note.append("not original: " + x)
            if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()):
                note.append("no original line changed"); orig = False
            nopt = b.get("opt", False)
            open(d + "/demo.sh", "w").write(DEMO % (b.get("flags", ""), "" if nopt else " | grep -v Optimise.cpp"))
            if b.get("py"):
                open(d + "/demo.sh", "w").write(PYDEMO); nopt = True
                for n in ("pybind11.h", "stl_bind.h", "functional.h", "operators.h", "pytypes.h"): shutil.copy("/verif/harness/pybind_stub/pybind11/" + n, d)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + b["demo"].lstrip("\n"))
            open(d + "/demo.h", "w").write(PRELUDE)
            for n, c in b.get("extra", {}).items(): open(d + "/" + n, "w").write(c)
            if nopt: shutil.copy("/verif/harness/nlopt_stub/nlopt.hpp", d + "/nlopt.hpp")
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            t = sh("bash /opt/vp/test.sh /tmp/plant_out.json")
            try: res = json.load(open("/tmp/plant_out.json"))
            except Exception: res = {"passed": [], "failed": ["?"]}
            tests = len(res["passed"])
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            missing = sorted(x for x in stable if x not in str(res["passed"]))
            bad = sh("cd /repo && %s/demo.sh" % d)
            chk = sh("cd /verif && ./check %s --tier quick" % b["prop"])
            revert()
            good = sh("cd /repo && %s/demo.sh" % d)
            vio = [l for l in chk.stdout.splitlines() if l.startswith("VIOLATION")]
            ctx = [l for l in chk.stdout.splitlines() if l.startswith("counterexample")]
            valid = orig and not missing and bad.returncode not in (0,) and good.returncode == 0
            print(b["id"], b["prop"], "VALID" if valid else "INVALID", "tests=%d" % tests, "missing=%s" % missing, "demo patched=%d clean=%d" % (bad.returncode, good.returncode),
                  "CAUGHT" if chk.returncode == 1 and vio else "MISSED(rc=%d)" % chk.returncode, (ctx[0][:200] if ctx else ""), note, flush=True)
            if bad.returncode == 3 or good.returncode: print("   demo:", (good.stdout or bad.stdout)[-600:])
            if chk.returncode == 2: print("   check:", chk.stdout[-600:])
            if not valid: print("   ->", bad.stdout[-300:])
        finally:
            revert()
    sh("bash /opt/vp/build.sh")
main()
