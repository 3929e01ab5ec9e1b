"""Records runs of the tools on files that are each other's inputs and outputs."""
import contextlib, io, json, os, shutil, subprocess, sys
from common import main, THOROUGH, Malformed, SHARD
import gen, histories, texts
from gen import rng
import tools

from gaspra import merge_tool

MISSING, DIRECTORY, NOWHERE = -1, -2, -3
STATES = {"file": 0, "missing": MISSING, "directory": DIRECTORY, "nowhere": NOWHERE}


def in_process(tool, args, hashseed):
    """(whether it failed, what it showed)"""
    out, err, argv = io.StringIO(newline=""), io.StringIO(), sys.argv
    sys.argv = [tool, *args]
    failed = False
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                {"merge": merge_tool.merge_cli, "diff": merge_tool.diff_cli}[tool]()
            except SystemExit as e:
                failed = e.code not in (0, None)
            except Exception:
                failed = True
    finally:
        sys.argv = argv
    return failed, out.getvalue().encode("utf-8", "surrogateescape")


def piped(tool, args, hashseed):
    r = subprocess.run(tools.command(tool, args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env={**os.environ, "PYTHONHASHSEED": hashseed}, timeout=60)
    return r.returncode != 0, r.stdout


class Place:
    """A scratch directory with a file system of numbered paths."""

    def __init__(self, names, states, contents, number):
        self.root = os.path.join(os.getcwd(), f"files-{SHARD}")
        shutil.rmtree(self.root, ignore_errors=True)
        self.work = os.path.join(self.root, "work")
        os.makedirs(self.work)
        os.symlink(self.work, os.path.join(self.root, "link"))
        self.number = number
        self.names = [os.path.join(f"d{k}", n) for k, n in enumerate(names)]
        self.made = set()
        for name, state, content in zip(self.names, states, contents):
            path = os.path.join(self.work, name)
            if state != "nowhere":
                os.makedirs(os.path.dirname(path))
            if state == "file":
                with open(path, "wb") as f:
                    f.write(content)
            elif state == "directory":
                os.makedirs(path)

    def look(self):
        out = []
        for name in self.names:
            path = os.path.join(self.work, name)
            if os.path.isdir(path):
                out.append(DIRECTORY)
            elif not os.path.isdir(os.path.dirname(path)):
                out.append(NOWHERE)
            elif not os.path.lexists(path):
                out.append(MISSING)
            else:
                with open(path, "rb") as f:
                    out.append(self.number(f.read()))
        for d, _, files in os.walk(self.work):
            for f in files:
                if os.path.relpath(os.path.join(d, f), self.work) not in self.names:
                    raise Malformed(f"a file {f!r} that nobody asked for")
        return out

    def spelled(self, k, r):
        """A name for a path."""
        name = self.names[k]
        return r.choice([os.path.join(self.work, name), name, os.path.join(".", name),
                         os.path.join("..", "link", name), os.path.join("d0", "..", name)
                         if os.path.isdir(os.path.join(self.work, "d0")) else name])

    def apart(self, tool, ins, to_file, args):
        """The result when the inputs are files of their own."""
        where = os.path.join(self.root, "ref")
        os.makedirs(where)
        try:
            paths = []
            for k, p in enumerate(ins):
                d = os.path.join(where, f"in{k}")
                os.makedirs(d)
                paths.append(os.path.join(d, os.path.basename(self.names[p])))
                shutil.copyfile(os.path.join(self.work, self.names[p]), paths[-1])
            output = os.path.join(where, "result")
            failed, shown = in_process(
                tool, [*(["-o", output] if to_file else []), *args, "--", *paths], "0")
            if failed:
                raise Malformed("failed with files of their own")
            if not to_file:
                return self.number(shown)
            with open(output, "rb") as f:
                return self.number(f.read())
        finally:
            shutil.rmtree(where)

    def run(self, tool, ins, out, args, how, r):
        before = self.look()
        possible = all(before[p] >= 0 for p in ins)
        ref = self.apart(tool, ins, out is not None, args) if possible else -1
        line = [*args, *(["-o", self.spelled(out, r)] if out is not None else []), "--",
                *(self.spelled(p, r) for p in ins)]
        here = os.getcwd()
        os.chdir(self.work)
        try:
            failed, shown = how(tool, line, str(r.randrange(1, 1000)))
        finally:
            os.chdir(here)
        return {"tool": tool, "ins": [p + 1 for p in ins], "out": 0 if out is None else out + 1,
                "failed": failed, "shown": self.number(shown) if shown else 0,
                "ref": ref, "before": before, "after": self.look()}


class Contents:
    """Numbers for contents; 0 for empty ones."""

    def __init__(self):
        self.table = {b"": 0}

    def __call__(self, data):
        return self.table.setdefault(data, len(self.table))


def record(names, states, contents, runs, r):
    """runs: (tool, inputs, output or None, arguments, how), paths from 0."""
    place = Place(names, states, contents, Contents())
    try:
        return {"runs": [place.run(*x, r) for x in runs]}
    finally:
        shutil.rmtree(place.root, ignore_errors=True)


NAMES = [["a.txt", "b.txt", "c.txt", "d.txt"], ["same", "same", "same", "same"],
         ["x y", "-o", "[red]", "e\u0301"],
         # not valid UTF-8
         ["caf\udce9", "\udcff\udcfe", "a\udc80.txt", "\udced\udca0\udc80"]]


def arguments(r, tool):
    args = [r.choice(["-w", "-l", "-c", ""])]
    args += [o for o in ("-g", "-L", "-s") if r.random() < 0.3]
    if tool == "merge" and r.random() < 0.3:
        args.append("-d")
    return [a for a in args if a]


def documents(r, n):
    p, a, b = tools.triple(r, 0.1, None)
    c = tools.triple(r, 0.3, None)[0]
    out = [t.encode("utf-8", "replace") for t in (p, a, b, c)]
    if r.random() < 0.15:
        out[r.randrange(4)] = "caf\u00e9\n".encode("latin-1")
    if r.random() < 0.15:
        out[r.randrange(4)] = b""
    return out[:n]


def runs(rec):
    r = rng("files")
    found = histories.from_specification()
    r.shuffle(found)

    for k, h in enumerate(found[: 900 if not THOROUGH else 20000]):
        how = piped if k % 40 == 0 else in_process
        docs = documents(r, 3)
        todo = [(x["tool"], [p - 1 for p in x["ins"]], x["out"] - 1 if x["out"] else None,
                 arguments(r, x["tool"]), how) for x in h["runs"]]
        rec.case("runs of the specification", f"{h} {docs} {[t[3] for t in todo]}",
                 lambda: record(NAMES[k % 4][:3], h["first"], docs, todo, rec.r))
    for k in range(250 if not THOROUGH else 5000):
        docs = documents(r, 4)
        states = [r.choice(["file"] * 7 + ["missing", "directory", "nowhere"]) for _ in range(4)]
        todo = []
        for _ in range(r.choice([3, 6])):
            tool = r.choice(["merge", "merge", "diff"])
            todo.append((tool, [r.randrange(4) for _ in range(3 if tool == "merge" else 2)],
                         r.choice([None, 0, 1, 2, 3, 3]), arguments(r, tool),
                         piped if k % 40 == 0 else in_process))
        rec.case("longer", f"{states} {docs} {todo}", lambda: record(
            NAMES[k % 4], states, docs, todo, rec.r))
    for k in range(6 if not THOROUGH else 60):  # bigger than a buffer
        base = [f"{j} {'x' * (300 + j)}\n" for j in range(300)]
        docs = ["".join(base[:cut] + [f"new {cut}\n"] + base[cut + 1:]).encode()
                for cut in r.sample(range(290), 4)]
        todo = [("merge", [0, 1, 2], r.choice([0, 1, 2, None]), ["-l"], piped),
                ("diff", [0, 3], r.choice([0, 3, 1]), ["-l"], in_process),
                ("diff", [1, 2], 2, ["-l"], in_process)]
        rec.case("big", f"{k}", lambda: record(NAMES[k % 3], ["file"] * 4, docs, todo, rec.r))


# ------------------------------------------------------------------ the test-case tool
TORTURE = {"chunks": ["chunks_1_0.c", "chunks_1_1.c", "chunks_1_2.c"],
           "ReleaseNotes": ["ReleaseNotes 9_4.html", "ReleaseNotes 9_4_1.html",
                            "ReleaseNotes 9_4_2.html"],
           "Bug_ReporterApp": ["Bug_ReporterApp_Parent.h", "Bug_ReporterApp_BranchA.h",
                               "Bug_ReporterApp_BranchB.h"]}
CASES = ["About.java", "ErrorMsg.java", "ServerWin_2005.vcproj.Reduced", "getCLIArgs.java",
         *TORTURE, "RearViewMirror.java"]


def torture_record(case, docs, args, to_file):
    """A copy of the package, with test cases where it looks for them."""
    root = os.path.join(os.getcwd(), f"torture-{SHARD}")
    shutil.rmtree(root, ignore_errors=True)
    number = Contents()
    try:
        shutil.copytree(os.path.join(gen.REPO, "src", "gaspra"), os.path.join(root, "src", "gaspra"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        cases = os.path.join(root, "test-cases")
        os.makedirs(cases)
        names = TORTURE.get(case) or [f"{case}.{x}" for x in ("parent", "1st", "2nd")]
        paths = [os.path.join(cases, n) for n in names]
        for path, data in zip(paths, docs):
            with open(path, "wb") as f:
                f.write(data)

        def look():
            return [number(open(p, "rb").read()) for p in paths] + [len(os.listdir(cases))]

        def call(tool, rest):
            output = os.path.join(root, "output")
            line = [sys.executable, "-s", "-c", f"from gaspra.merge_tool import {tool}_cli as f; f()",
                    *args, *(["-o", output] if to_file else []), "--", *rest]
            r = subprocess.run(line, env={**os.environ, "PYTHONPATH": os.path.join(root, "src")},
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=80)
            if r.returncode:
                raise Malformed(f"exit {r.returncode}: {r.stderr[-200:]!r}")
            if not to_file:
                return number(r.stdout)
            with open(output, "rb") as f:
                data = f.read()
            os.unlink(output)
            return number(data + r.stdout)

        before = look()
        shown = call("torture", [case])
        merged = call("merge", [paths[0], paths[2], paths[1]])
        return {"before": before, "shown": shown, "merged": merged, "after": look()}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def torture(rec):
    r = rng("torture")
    for k in range(24 if not THOROUGH else 200):
        case = CASES[k % len(CASES)]
        p = [texts.line(r, 0.1) for _ in range(6)]
        docs = ["".join(p).encode()] + ["".join(
            x if r.random() < 0.5 else f"{r.choice(texts.WORDS)} {x}" for x in p).encode()
            for _ in range(2)]
        args = arguments(r, "merge")
        rec.case("test cases", f"{case} {args} {docs}", lambda: torture_record(
            case, docs, args, k % 3 == 0))


if __name__ == "__main__":
    main({"runs": runs, "torture": torture})
