#!/usr/bin/env python3
"""Development self-test: applies small edits (bugs and behaviour-preserving ones) to scratch copies of /repo
and reports whether the checks alarm on the former and stay quiet on the latter.
usage: run.py [PROPERTY ...]   (no check reads this directory)"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib, glob
CASES = []
for f in sorted(glob.glob(HERE + "/cases_*.py")):
    CASES += importlib.import_module(os.path.basename(f)[:-3]).CASES
want = set(sys.argv[1:])


def one(i, c):
    pid, kind, file, old, new = c
    d = tempfile.mkdtemp(prefix="smself.")
    try:
        dst = d + "/repo"
        shutil.copytree(os.environ.get("SM_BASE", "/repo"), dst, ignore=shutil.ignore_patterns("_build", "build", ".git", "*.o", "*.so"))
        p = dst + "/" + file
        s = open(p).read()
        edits = zip(old, new) if isinstance(old, list) else [(old, new)]
        for o, n in edits:
            if o not in s:
                return i, "NOMATCH", o[:60]
            s = s.replace(o, n, 1)
        open(p, "w").write(s)
        env = dict(os.environ, SM_REPO=dst, SM_EVIDENCE=d)
        r = subprocess.run([sys.executable, HERE + "/../check.py", pid], capture_output=True, text=True, env=env)
        want_rc = 1 if kind == "bug" else 0
        ok = r.returncode == want_rc
        return i, "ok" if ok else "WRONG rc=%d" % r.returncode, "" if ok else (r.stdout[-700:] + r.stderr[-700:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


sel = [(i, c) for i, c in enumerate(CASES) if not want or c[0] in want]
bad = 0
with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("SM_JOBS", "4"))) as ex:
    for i, st, msg in ex.map(lambda t: one(*t), sel):
        c = CASES[i]
        first = (c[4][0] if isinstance(c[4], list) else c[4]).strip().split("\n")[0][:70]
        if st != "ok":
            bad += 1
            print("%-8s %-4s %-7s %s :: %s\n   %s" % (st, c[0], c[1], c[2], first, msg), flush=True)
print("%d cases, %d wrong" % (len(sel), bad))
sys.exit(1 if bad else 0)
