#!/usr/bin/python3
"""matrix.py [seed...]   runs each planted bug's check against it; exits 1 if one is missed.

Works on copies of /repo.  Prints one line per bug: what the check said, and how long it took.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
missed = []
for name in names:
    d = os.path.join(HERE, "seeded", name)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    work = tempfile.mkdtemp(prefix="matrix-", dir="/tmp")
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        began = time.time()
        r = subprocess.run([sys.executable, "check.py", pid], cwd=HERE, text=True,
                           capture_output=True, timeout=1200,
                           env={**os.environ, "GASPRA_REPO": repo, "VERIF_TIER": "quick"})
        clauses = sorted({c for l in r.stdout.splitlines() if l.startswith("broken: ")
                          for c in l.split(":")[1].strip().split(", ")})
        n = re.search(r"\((\d+) executions", r.stdout)
        print(f"{pid} {name:28s} exit {r.returncode} {time.time() - began:6.1f} s "
              f"{n and n.group(1)} {' '.join(clauses)}", flush=True)
        if r.returncode != 1:
            missed.append(name)
    finally:
        shutil.rmtree(work, ignore_errors=True)
print("missed:", " ".join(missed) or "none")
sys.exit(bool(missed))
