#!/usr/bin/env python3
"""Random small mutations of the library, to look for gaps in the checks (developer tool, not a check).

  mutate.py CHECKDIR OUT.jsonl N [seed] [file ...]

Works on a scratch copy of /repo.  A mutant that compiles and passes the repository's tests is given to
the quick checks (run from CHECKDIR, a clone of /verif), until one reports a violation."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile
CHECKDIR, OUT, N = sys.argv[1], sys.argv[2], int(sys.argv[3])
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
ONLY = sys.argv[5:]
REPO = "/repo"
ORDER = {
 "Mesh": "C01 C02 C14 C11 C28", "Heap": "C03 C26 C05 C28", "FastMarchingMethod": "C04 C05 C07 C06 C26 C28 C13 C27",
 "LevelSet": "C12 C11 C10 C09 C07 C08 C16 C13 C26 C27 C28 C06 C04 C05 C20", "Boundary": "C14 C15 C17 C18 C16 C06 C13 C19 C28 C27",
 "InputOutput": "C20 C21 C22", "Sensitivity": "C19", "Optimise": "C24 C25 C26", "MersenneTwister": "C23 C08", "Hole": "C12 C13", "Common": "C12 C02"}
ALL = ["C%02d" % i for i in range(1, 32)]
OPS = [
 (r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=!-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
 (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"-=", "+="), (r" ?\* ?", "/"), (r" / ", " * "),
 (r"\bwidth\b", "height"), (r"\bheight\b", "width"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\bstart\b", "end"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.|e)", "0"), (r"\b1\b(?!\.|e)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b2\b(?!\.)", "3"), (r"\b3\b(?!\.)", "2"), (r"\b0\.5\b", "0.51"), (r"\b1\.0\b", "1.01"), (r"\b2\.0\b", "2.02"),
 (r"\b1e-6\b", "1e-3"), (r"std::min", "std::max"), (r"std::max", "std::min"), (r"std::abs", ""), (r"\bdx\b", "dy"), (r"\bminX\b", "minY"), (r"\bn1\b", "n2"), (r"\bn2\b", "n1"),
 (r"\bnNodes\b", "nElements"), (r"\bINSIDE\b", "OUTSIDE"), (r"\bOUTSIDE\b", "INSIDE"), (r"\bisActive\b", "isMasked"), (r"\bisMasked\b", "isActive"), (r"\bisDomain\b", "isFixed"), (r"\+\+", ""), (r"\bmax\b", "min"),
 (r"^(\s*)(?!return|double|int|unsigned|bool|std::|Coord|Boundary|for|if|else|while|case|//|\*|break|continue)[A-Za-z_][\w\.\[\]>\-\(\)\+\* ]*( [-+*/]?= .*|\(.*\)|\+\+);$", r"\1;"), (r"^(\s*)(break|continue);", r"\1;"),
]
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def lines(f):
    out, comment, skip = [], False, 0
    for i, l in enumerate(open(f).read().split("\n")):
        s = l.strip()
        if s.startswith("#ifdef PYBIND") or s.startswith("#ifdef WIN"): skip = 1
        if s.startswith("#endif"): skip = 0
        if s.startswith("/*"): comment = True
        if not comment and not skip and s and not s.startswith(("//", "#", "*")) and "fprintf(pFile, \"#" not in s and "slsm_log" not in s: out.append(i)
        if "*/" in s: comment = False
    return out
def main():
    rng = random.Random(SEED)
    T = tempfile.mkdtemp(prefix="slsmmut.", dir="/tmp")
    try:
        shutil.copytree(REPO + "/src", T + "/r/src"); shutil.copytree(REPO + "/tests", T + "/r/tests")
        hs = [os.path.basename(h) for h in glob.glob(T + "/r/src/*.h") if os.path.basename(h) not in ("slsm.h", "Optimise.h")]
        os.mkdir(T + "/inc"); open(T + "/inc/slsm.h", "w").write("\n".join('#include "%s"' % h for h in hs))
        flags = "-O1 -DNDEBUG -std=c++11 -w -I%s/inc -I%s/r/src" % (T, T)
        srcs = [s for s in glob.glob(T + "/r/src/*.cpp") if "Optimise" not in s]
        tests = glob.glob(T + "/r/tests/*.cpp"); objs = {}
        for s in srcs + tests:
            o = T + "/" + os.path.basename(s) + ".o"; objs[s] = o
            assert sh("g++ %s -c %s -o %s" % (flags, s, o)).returncode == 0
        def suite():
            for t in tests:
                e = T + "/t.exe"
                if sh("g++ %s %s -o %s" % (objs[t], " ".join(objs[s] for s in srcs), e)).returncode: return False
                if sh("cd %s && timeout 20 %s" % (T, e)).returncode: return False
            return True
        assert suite()
        files = [f for f in sorted(glob.glob(T + "/r/src/*.cpp")) + [T + "/r/src/MersenneTwister.h"] if not ONLY or os.path.basename(f).split(".")[0] in ONLY]
        pool = [(f, i) for f in files for i in lines(f)]
        done = 0; seen = set()
        while done < N:
            f, i = rng.choice(pool); text = open(REPO + "/src/" + os.path.basename(f)).read().split("\n")
            op, rep = rng.choice(OPS); ms = list(re.finditer(op, text[i]))
            if not ms: continue
            m = rng.choice(ms); new = text[i][:m.start()] + m.expand(rep) + text[i][m.end():]
            if new == text[i] or (f, i, new) in seen: continue
            seen.add((f, i, new)); done += 1
            t2 = list(text); t2[i] = new; open(f, "w").write("\n".join(t2)); base = os.path.basename(f).split(".")[0]
            rec = {"file": os.path.basename(f), "line": i + 1, "old": text[i].strip(), "new": new.strip()}
            try:
                if "Optimise" in f: ok = sh("g++ %s -I/verif/harness/nlopt_stub -c %s -o /dev/null" % (flags, f)).returncode == 0
                elif f.endswith(".h"): ok = all(sh("g++ %s -c %s -o %s" % (flags, s, objs[s])).returncode == 0 for s in srcs) and suite()
                else: ok = sh("g++ %s -c %s -o %s" % (flags, f, objs[f])).returncode == 0 and suite()
                if not ok: continue
                first = ORDER.get(base, "").split(); caught = None; odd = []
                for p in first + [x for x in ALL if x not in first]:
                    r = sh("SLSM_REPO=%s/r timeout 900 ./check %s --seed 1" % (T, p), cwd=CHECKDIR)
                    if r.returncode == 1: caught = p; rec["why"] = "".join(re.findall(r"counterexample: .*", r.stdout))[:200]; break
                    if r.returncode: odd.append((p, r.returncode))
                rec["caught"] = caught; rec["odd"] = odd
                open(OUT, "a").write(json.dumps(rec) + "\n")
            finally:
                open(f, "w").write("\n".join(text))
                if "Optimise" not in f:
                    for s in (srcs if f.endswith(".h") else [f]): sh("g++ %s -c %s -o %s" % (flags, s, objs[s]))
    finally:
        shutil.rmtree(T)
main()
