#!/usr/bin/python3
"""seed.py FILE.py [id...]   tries planted bugs, and keeps those that qualify in seeded/.

FILE.py defines SEEDS: dicts with id, property, needs, breaks, edits (file, old, new) and
demo (Python).  A bug qualifies when /repo's tests pass with it and the demo fails with it
and passes without.  Prints whether the property's check reports it.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# Exit 0: as it should be.  Otherwise the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
scratch=$(mktemp -d)
cd "$scratch"
timeout 250 /opt/venv/bin/python "$here/demo.py"
rc=$?
cd /
rm -rf "$scratch"
exit $rc
'''


def sh(command, **kw):
    return subprocess.run(command, capture_output=True, text=True, **kw)


def of_original(repo):
    """Does the change in repo's working tree touch lines that no commit of ours added?"""
    def hunks(*a):
        text = sh(["git", "-C", repo, "diff", "-U0", *a]).stdout
        for part in re.split(r"(?m)^(?=diff --git )", text)[1:]:
            path = re.search(r"(?m)^--- a/(\S+)", part)[1]
            for m in re.finditer(r"(?m)^@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? ", part):
                yield path, int(m[1]), int(m[2] or 1), int(m[3]), int(m[4] or 1)
    base = sh(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
    added = {(f, i) for f, _, _, at, n in hunks(base, "HEAD") for i in range(at, at + n)}
    for f, at, n, _, _ in hunks():
        old = [(f, i) not in added for i in (range(at, at + n) if n else (at, at + 1))]
        if any(old) if n else all(old):
            return True
    return False


def try_seed(s, check=True):
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(work, "repo")
    try:
        sh(["cp", "-a", "/repo", repo])
        for file, old, new in s["edits"]:
            path = os.path.join(repo, "src/gaspra", file)
            text = open(path).read()
            if text.count(old) != 1:
                return f"edit of {file} matches {text.count(old)} times: {old[:60]!r}"
            open(path, "w").write(text.replace(old, new))
        patch = sh(["git", "-C", repo, "diff"]).stdout
        if not of_original(repo):
            return "changes no lines of the original repository"
        tests = sh(["flock", "/tmp/seed.lock", "timeout", "300", PYTHON, "-m", "pytest", "-q", "-x", "-p",
                    "no:cacheprovider", "--ignore=tests/medium", "tests"], cwd=repo,
                   env={**os.environ, "PYTHONPATH": repo + "/src", "PYTHONDONTWRITEBYTECODE": "1"})
        if tests.returncode:
            return "tests fail: " + " ".join(tests.stdout.strip().splitlines()[-3:])[-300:]
        d = os.path.join(work, "seed")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        good = sh(["bash", d + "/demo.sh"], cwd="/repo")
        if good.returncode:
            return "demo fails on the unchanged tree: " + good.stderr[-400:]
        bad = sh(["bash", d + "/demo.sh"], cwd=repo)
        if not bad.returncode:
            return "demo passes with the bug"
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        out = os.path.join(HERE, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        if not check:
            return "kept"
        found = sh(["timeout", "900", sys.executable, "check.py", s["property"]], cwd=HERE,
                   env={**os.environ, "GASPRA_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        line = [x for x in found.stdout.splitlines() if x.startswith("VIOLATION")]
        return f"kept; check exits {found.returncode} {line[:1]} [{bad.stderr.strip()[-120:]}]"
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    for s in seeds:
        if not sys.argv[2:] or s["id"] in sys.argv[2:]:
            print(f"{s['id']:28s}", try_seed(s), flush=True)


if __name__ == "__main__":
    main()
