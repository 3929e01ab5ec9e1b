"""Records runs of the command-line tools, and renderings."""
import contextlib, copy, io, os, pty, re, subprocess, sys, termios
from itertools import product
from common import main, THOROUGH, Malformed, SHARD
import gen, texts
from gen import rng
from texts import points
from tokens import MAKERS, text_items
from linediff import lined

from gaspra import merge_tool, markup, tokenizers
from gaspra.changesets import diff_token_sequences
from gaspra.diff_to_lines import consolidated_line_diff
from gaspra.merge import merge_token_sequence
from gaspra.types import Change

TOKENIZATION = {"": "char", "-c": "char", "-w": "symbol", "-l": "line"}
LONG = {"-c": "--characters", "-w": "--words", "-l": "--lines", "-L": "--show-lines",
        "-g": "--git-compatible", "-s": "--strikeout", "-d": "--diff", "-o": "--output"}
STYLES = re.compile("\x1b\\[[0-9;]*m")
TAGS = re.compile(r"\[[^\[\]]*\]")

ENVIRONMENTS = [{}, {}, {}, {"COLUMNS": "20"}, {"TERM": "dumb"}, {"NO_COLOR": "1"},
                {"FORCE_COLOR": "1", "TERM": "xterm-256color"},
                {"FORCE_COLOR": "1", "COLORTERM": "truecolor", "COLUMNS": "10"}]


# ------------------------------------------------------------------- running a tool
def in_process(tool, args, environment):
    out, err = io.StringIO(newline=""), io.StringIO()
    saved, argv = dict(os.environ), sys.argv
    os.environ.update(environment)
    sys.argv = [tool, *args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                {"merge": merge_tool.merge_cli, "diff": merge_tool.diff_cli}[tool]()
            except SystemExit as e:
                if e.code not in (0, None):
                    raise Malformed(f"exit {e.code}: {err.getvalue()[-200:]}") from e
    finally:
        sys.argv = argv
        os.environ.clear()
        os.environ.update(saved)
    return STYLES.sub("", out.getvalue())


def command(tool, args):
    return [sys.executable, "-s", "-c", f"from gaspra.merge_tool import {tool}_cli as f; f()", *args]


def piped(tool, args, environment):
    r = subprocess.run(command(tool, args), env={**os.environ, **environment},
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if r.returncode:
        raise Malformed(f"exit {r.returncode}: {r.stderr[-200:]!r}")
    return STYLES.sub("", r.stdout.decode("utf-8"))


def on_terminal(tool, args, environment):
    """In a terminal of 40 columns."""
    ours, theirs = pty.openpty()
    try:
        flags = termios.tcgetattr(theirs)
        flags[1] &= ~termios.OPOST
        termios.tcsetattr(theirs, termios.TCSANOW, flags)
        termios.tcsetwinsize(theirs, (24, 40))
        p = subprocess.Popen(command(tool, args), env={
            **os.environ, "TERM": "xterm-256color", **environment},
            stdout=theirs, stderr=subprocess.PIPE)
        os.close(theirs)
        theirs = None
        data = b""
        while True:
            try:
                more = os.read(ours, 65536)
            except OSError:
                break
            if not more:
                break
            data += more
        err = p.stderr.read()
        if p.wait(60):
            raise Malformed(f"exit {p.returncode}: {err[-200:]!r}")
    finally:
        os.close(ours)
        if theirs is not None:
            os.close(theirs)
    return STYLES.sub("", data.decode("utf-8"))


# ---------------------------------------------------------------------- what to expect
def decoded(data):
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        text = data.decode("iso-8859-1")
    return text.replace("\r\n", "\n").replace("\r", "\n")


def streams_of(tool, contents, kind, with_diffs):
    """The streams that a tool is to show, by gaspra's own functions."""
    tokenizer = MAKERS[kind]()
    if tool == "diff":
        o, m = (tokenizer.encode(t) for t in contents)
        return [list(tokenizers.decode_changes(diff_token_sequences(o, m), tokenizer))]
    p, f, i = contents
    p, i, f = (tokenizer.encode(t) for t in (p, i, f))
    out = []
    if with_diffs:
        for x in (i, f):
            out.append(list(tokenizers.decode_changes(diff_token_sequences(p, x), tokenizer)))
    out.append(list(tokenizers.decode_changes(merge_token_sequence(p, i, f), tokenizer)))
    return out


def expectation(streams, lines, git):
    return {"tool": True, "streams": [text_items(s, str) for s in streams],
            "lined": [lined(consolidated_line_diff(s)) if lines or git else [] for s in streams],
            "lines": lines, "git": git}


_runs = [0]


def run(tool, files, names, tokenization, options, how=in_process, environment={}, shuffle=None,
        existing=b""):
    """files: bytes, in the order of the arguments. options: of -L, -g, -s, -d, -o."""
    _runs[0] += 1
    where = os.path.join(os.getcwd(), f"run-{SHARD}")
    paths = []
    for k, (data, name) in enumerate(zip(files, names)):
        d = os.path.join(where, f"dir{k}")
        os.makedirs(d, exist_ok=True)
        paths.append(os.path.join(d, name))
        with open(paths[-1], "wb") as f:
            f.write(data)
    output = os.path.join(where, "out.txt")
    args = [x for x in [tokenization, *options] if x]
    if "-o" in args:
        args[args.index("-o") : args.index("-o") + 1] = ["-o", output]
        with open(output, "wb") as f:
            f.write(existing)
    if shuffle is not None:
        args = [LONG.get(x, x) if shuffle.random() < 0.3 else x for x in args]
        args = args + ["--"] + paths if shuffle.random() < 0.3 else paths + args
    else:
        args += ["--", *paths]
    try:
        shown = how(tool, args, environment)
        to_file = "-o" in options
        if to_file:
            if shown:
                raise Malformed(f"output to a file, and {shown!r:.100}")
            with open(output, "rb") as f:
                shown = f.read().decode("utf-8", "surrogateescape")
    finally:
        for path in [*paths, output]:
            if os.path.lexists(path):
                os.unlink(path)
    contents = [decoded(data) for data in files]
    git, lines, diffs = "-g" in options, "-L" in options, "-d" in options
    streams = streams_of(tool, contents, TOKENIZATION[tokenization], diffs)
    r = expectation(streams, lines, git)
    if to_file and not git and any(isinstance(x, Change) for s in streams for x in s):
        # Tags in a file; those texts have no brackets.
        shown = TAGS.sub("", shown)
    if tool == "diff":
        into, other, headers = [names[1]], [names[0]], [""]
    elif diffs:
        into, other = [names[2], names[1], names[2]], [names[0], names[0], names[1]]
        headers = [names[2], names[1], "Merged"]
    else:
        into, other, headers = [names[2]], [names[1]], [""]
    r.update(files=[list(data) for data in files], texts=[points(t) for t in contents],
             into=[points(n) for n in into], names=[points(n) for n in headers],
             out=points(shown))
    r["from"] = [points(n) for n in other]
    return r


NAMES = [["parent.txt", "from.txt", "into.txt"], ["same.txt", "same.txt", "same.txt"],
         ["a b", "-x", "c:d=e"], ["[red]x", "a\\", "[i]"], ["\u00e9", "\u4e2d.txt", "e\u0301"],
         [":smile:", "a\\[b", "x]"], ["#1", "{}", "%s"], ["<a>", "=b", "'\""],
         ["caf\udce9", "\udcff\udcfe", "a\udc80.txt"]]  # not valid UTF-8


def document(r, odd, oddities=None):
    if oddities is None:
        return texts.document(r, odd=odd)
    return "".join(
        "".join(r.choice(oddities) if r.random() < odd else r.choice(texts.WORDS + [" ", " "])
                for _ in range(r.randint(0, 5))) + "\n" for _ in range(r.choice([0, 1, 3, 6])))


def edited(r, text, odd, oddities):
    """A few words, or whole lines, are different."""
    out = texts.edited(r, text, odd=0.0)
    if oddities and r.random() < odd + 0.3:
        k = r.randint(0, len(out))
        out = out[:k] + r.choice(oddities) + out[k + r.choice([0, 0, 1, 3]) :]
    return out


def cleaned(t, forbidden):
    return "".join(c for c in t if c not in forbidden)


def triple(r, odd=0.2, oddities=None, forbidden=""):
    p = document(r, odd, oddities)
    a = edited(r, p, odd, oddities)
    b = edited(r, p, odd, oddities)
    c = r.random()
    if c < 0.06:
        a = p
    elif c < 0.12:
        b = p
    elif c < 0.2:
        b = document(r, odd, oddities)
    return [cleaned(t, forbidden) for t in (p, a, b)]


def encoded(r, ts):
    out = []
    for t in ts:
        if r.random() < 0.15:
            t = t.replace("\n", r.choice(["\r\n", "\r"]))
        out.append(t.encode("latin-1", "replace") if r.random() < 0.1 else t.encode("utf-8"))
    return out


def huge(as_lines):
    """Edits of a huge file: parent, and two branches."""
    r = rng("huge files")
    n = gen.huge_size()
    if as_lines:
        parts = [f"{chr(k + 200)}\n" for k in range(n // 3) if k + 200 not in (0x2028, 0x2029)]
    else:
        parts = [chr(k + 200 if k < 55_000 else k + 3000) for k in range(n)]
        for k in range(0, n, 1000):
            parts[k] = "\n"
    i, j = sorted(r.sample(range(1000, len(parts) - 1000), 2))
    new = ["-\n"] if as_lines else ["-"]
    p = "".join(parts)
    a = "".join(parts[:i] + new + parts[i + 2 : -1] + new)
    yield "edits", [p, a, "".join(parts[:j] + new * 2 + parts[j + 1 :])]
    yield "conflict", [p, a, "".join(parts[:i] + new * 2 + parts[i + 2 :])]
    yield "only one edits", [p, p, a]
    yield "the same", [p, p, p]
    yield "one line", ["x\n" + "a" * n, "x\n" + "a" * n + "b", "y\n" + "a" * n]
    yield "appended", ["x\n", "x\n" + p, "y\nx\n"]


def huge_runs(rec, every):
    """every: tokenization, options and as_lines of runs."""
    for k, (tokenization, options, as_lines) in enumerate(every):
        for n, (cls, ts) in enumerate(huge(as_lines)):
            if n % 3 != k and not THOROUGH:
                continue
            tool = "diff" if n == 3 or n == 5 else "merge"
            data = [t.encode() for t in (ts if tool == "merge" else ts[::2])]
            rec.case("huge", f"{tool} {cls} {tokenization} {options} {as_lines}", lambda: run(
                tool, data, NAMES[0][-len(data):], tokenization, options))


# ------------------------------------------------------------------------------- C25
GIT_ODD = [o for o in texts.ODDITIES if len(o) != 7] + ["<<<", "==", ">>", "<<<<<< ", "======"]
CONSOLE_BAD = "".join(chr(c) for c in [*range(32), *range(127, 160)] if c != 10)


def git(rec):
    r = rng("git")
    huge_runs(rec, [("-l", ["-g", "-o"], True), ("", ["-g", "-o"], False)])
    small = [t for t in texts.short("a\n", 3)] + ["a\nb\n", "b\na", "\na\n", "b", "b\n", "a\nb\na\n"]
    pairs = list(product(small, repeat=2))
    triples = [(p, a, b) for p in ["", "a", "a\n", "a\nb\n", "a\nb", "\n"] for a, b in
               product(small, repeat=2)]
    r.shuffle(triples)
    every = [("diff", x) for x in pairs] + [
        ("merge", x) for x in (triples[:700] if not THOROUGH else triples)]
    for k, (tool, ts) in enumerate(every):
        rec.case("small files", f"{tool} {ts}", lambda: run(
            tool, [t.encode() for t in ts], NAMES[k % 2], ["", "-w", "-l", "-c"][k % 4],
            ["-g", "-o"] if k % 3 else ["-g"]))
    for k in range(1100 if not THOROUGH else 20000):
        tool = ["merge", "merge", "diff"][k % 3]
        options = ["-g"] + [o for o in ("-L", "-s") if r.random() < 0.3]
        if tool == "merge" and r.random() < 0.1:
            options.append("-d")
        console = k % 5 == 0
        if not console:
            options.append("-o")
        ts = triple(r, r.choice([0.0, 0.1, 0.3]), None if k % 4 == 0 else GIT_ODD,
                    CONSOLE_BAD if console else "")
        data = encoded(r, ts[1:] if tool == "diff" else ts)
        if console:
            data = [t.encode() for t in (ts[1:] if tool == "diff" else ts)]
        names = NAMES[k % len(NAMES)]
        rec.case("documents", f"{tool} {options} {names} {data}", lambda: run(
            tool, data, names[: len(data)], ["-w", "-l", "", "-c"][k // 3 % 4], options, shuffle=rec.r
            if not any(n.startswith("-") for n in names) else None))
    for n in gen.sizes(600 if not THOROUGH else 2000, 25):
        a = "".join(f"{k}\n" if k % 3 else f"left {k}\n" for k in range(n))
        b = "".join(f"{k}\n" if k % 3 and k % 7 else f"right {k}\n" for k in range(n))
        p = "".join(f"{k}\n" for k in range(n))
        tool = "merge" if n % 2 else "diff"
        rec.case("many blocks", f"{tool} {n}", lambda: run(
            tool, [t.encode() for t in ([p, a, b] if n % 2 else [a, b])],
            NAMES[0][: 3 if n % 2 else 2], "-l", ["-g", "-o"]))
    # blocks of lines with many differences
    for n in gen.sizes(600 if not THOROUGH else 2000, 25):
        p = [f"{r.choice(texts.WORDS)}{k}" for k in range(n)]
        if n % 4 == 0:
            p[n // 2 :] = ["\n" if k == n // 2 else x for k, x in enumerate(p)][n // 2 :]
        a, b = ([x if x == "\n" or (k + s) % 3 else f"{'x' * s}{k}" for k, x in enumerate(p)]
                for s in (1, 2))
        ts = [" ".join(x) + ("\n" if n % 5 == 0 or n % 5 == j else "")
              for j, x in enumerate((p, a, b))]
        tool = ["merge", "diff"][n % 3 % 2]
        rec.case("long lines", f"{tool} {n}", lambda: run(
            tool, [t.encode() for t in ts[tool == "diff" :]], NAMES[0][: 2 + (tool == "merge")],
            ["-w", "-c", ""][n % 3], ["-g", "-o"]))
    for k in range(16 if not THOROUGH else 100):
        ts = triple(r, 0.2, GIT_ODD, CONSOLE_BAD)
        how = [piped, on_terminal][k % 2]
        rec.case(how.__name__, f"{ts}", lambda: run(
            "merge", [t.encode() for t in ts], NAMES[k % 2], "-w", ["-g"], how))


# ------------------------------------------------------------------------------- C26
class Marks:
    """A markup with functions and texts that can be told from one another."""

    def __init__(self, r, level, odd):
        choose = (lambda *a: r.choice(a)) if odd else (lambda *a: a[0])
        n = "" if level else "{}"
        self.parts = {
            "ip": choose(f"{level}<{n}:", "", "&", "[x]", f"{n}\n"),
            "is": choose(f":{n}/{level}", "", "a", "\n", "[/]"),
            "fp": choose(f"{level}({n}:", "", "b", "<", f"<{n}"),
            "fs": choose(f":{n}){level}", "", ">", ">>\n", f"{n}{n}"),
            "sep": choose(f"|{level}", "", "=\n", "&", "[]")}
        self.header = choose({"prefix": "H<", "suffix": ">H"}, {"prefix": "", "suffix": "\n"}, None)

    def markup(self):
        def function(part):
            return lambda name: part.replace("{}", str(name))
        p = self.parts
        m = {"into": {"prefix": function(p["ip"]), "suffix": function(p["is"])},
             "from": {"prefix": function(p["fp"]), "suffix": function(p["fs"])},
             "separator": p["sep"]}
        if self.header:
            m["header"] = self.header
        return m

    def record(self, into, other):
        p = self.parts
        return {"ip": points(p["ip"].replace("{}", into)), "is": points(p["is"].replace("{}", into)),
                "fp": points(p["fp"].replace("{}", other)),
                "fs": points(p["fs"].replace("{}", other)), "sep": points(p["sep"])}


class Own(Marks):
    """A markup of the package."""

    def __init__(self, given):
        self.given = copy.deepcopy(given)
        self.parts = sorted(given)

    def markup(self):
        return self.given

    def record(self, into, other):
        m = self.given
        return {"ip": points(m["into"]["prefix"](into)), "is": points(m["into"]["suffix"](into)),
                "fp": points(m["from"]["prefix"](other)),
                "fs": points(m["from"]["suffix"](other)), "sep": points(m["separator"])}


def own_marks(r):
    """Those that go together."""
    zero, one = r.choice([("GIT_MARKUP_LEVEL0", "PLAIN_LEVEL1"), ("COLORED_LEVEL0", "COLORED_LEVEL1"),
                          ("GIT_MARKUP_LEVEL0", "COLORED_LEVEL1"), ("COLORED_LEVEL0", "PLAIN_LEVEL1")])
    return [Own(getattr(markup, zero)), Own(getattr(markup, one))]


def nested_items(side):
    if isinstance(side, str):
        return [{"k": 0, "t": points(side), "d": points(side)}] if side else []
    return text_items(side, str)


def render_record(stream, marks0, marks1, names, esc, header):
    items = []
    for x in stream:
        if isinstance(x, Change):
            items.append({"k": 1, "t": nested_items(x.a), "d": nested_items(x.b)})
        else:
            items.append({"k": 0, "t": nested_items(x), "d": nested_items(x)})
    m0, m1 = marks0.markup(), marks1.markup()

    def escape(s):
        return "".join(f"&{c};" if c in esc else c for c in s)

    outs, headed = [], []

    def render(function, with_header=False, **kw):
        written = []
        function(lambda s: written.append(s), **kw)
        for w in written:
            if type(w) is not str:
                raise Malformed(f"printed {w!r:.80}")
        outs.append(points("".join(written)))
        headed.append(with_header)

    common = dict(markup0=m0, markup1=m1, name_into=names[0], name_from=names[1])
    if esc:
        common["escape"] = escape
    render(markup.markup_changes, stream=list(stream), **common)
    render(markup.markup_changes, stream=iter(list(stream)), **common)
    render(markup.markup_stream, stream=tuple(stream), **common)
    if header:
        render(markup.markup_changes, True, stream=list(stream), header=header, **common)
    else:
        render(markup.markup_changes, stream=list(stream), header=header, **common)
    return {"tool": False, "items": items, "m0": marks0.record(*names),
            "m1": marks1.record("None", "None"), "esc": points("".join(sorted(esc))),
            "header": points(header or ""), "outs": outs, "headed": headed}


def random_piece(r, chars):
    return "".join(r.choice(chars) for _ in range(r.choice([0, 1, 1, 2, 4])))


def random_stream(r, nested):
    chars = r.choice(["ab", "a\n", "a&;\n", "a[]\\/\n", "ab\n \u00e9\U0001f600", "<>=|:()\n", "\r\n", " \r", " \t\x0b\x0c\r\n", "a\r\n ", "\u2028\u3000\x85\x1c"])

    def side(other):
        """other: which half of nested changes is empty; None: neither has to be."""
        if not nested or r.random() < 0.2:
            return random_piece(r, chars)
        out = []
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.5:
                t = random_piece(r, chars)
                if t:
                    out.append(t)
            else:
                a, b = random_piece(r, chars), random_piece(r, chars)
                if r.random() < 0.8:
                    a, b = (a or b, "") if other == 1 else ("", a or b)
                if a or b:
                    out.append(Change(a, b))
        return tuple(out) if r.random() < 0.7 else out

    out = []
    for _ in range(r.randint(0, 6)):
        if r.random() < 0.5:
            out.append(random_piece(r, chars))
        else:
            out.append(Change(side(1), side(0)))
    return out


OPTIONS = ["-L", "-g", "-s", "-d"]


BLANK = [" ", "\r", "\n", "\r\n", "\n\r", " \r", "\r ", "\t", " \n ", "\x0b", "\x0c", "\x85", "\u2028", "\u3000",
         "\u200b", "\ufeff", "\x00", "\r\r", "a\r", "\ra", "a\r\n", " a ", "\ta\t", "a\n\n"]


def render(rec):
    r = rng("render")
    huge_runs(rec, [("-w", ["-L", "-o"], True), ("-c", ["-o"], False), ("-l", ["-s"], True)])
    n = gen.huge_size()
    many = "".join(r.choice(["a", "&", "b\n", "[", "]"]) for _ in range(n))
    for k, s in enumerate((
            ["x", Change(many, "y"), many, Change("", many[::-1])],
            ["x", Change(("a", Change(many, "")), "b"), "y"],
            ["x", Change(("a", Change("b", "")) * (n // 24), ("b",) * (n // 12)), "y"],
            ["a", Change("b", "&")] * (n // 12))):
        for esc in ("", "&"):
            marks = [Marks(r, 0, k % 2), Marks(r, 1, k % 2)]
            rec.case("huge", f"{k} {esc!r}", lambda: render_record(s, *marks, ("I", "F"), esc, "H"))
    short = ["", "a", "b\n", "ab"]
    sides = short + [(), ("a",), (Change("a", ""),), ("a", Change("", "b")),
                     (Change("a", ""), "b", Change("b", "a"))]
    small = [[]] + [[t] for t in short] + [[Change(a, b)] for a in sides for b in sides]
    small += [[t, Change(a, b), u] for t in ("", "a") for u in ("", "b\n")
              for a in short for b in short]
    small += [[t, Change(a, b), u] for a in BLANK for b in ("", "a") for t, u in (("", ""), ("x", "y"))]
    small += [[t, Change(b, a), u] for a in BLANK for b in ("", "a") for t, u in (("", ""), (a, a))]
    small += [[Change((Change(a, ""), a), (a, Change("", a)))] for a in BLANK]
    small += [[Change(a, b), Change(c, d)] for a in ("", "a") for b in ("", "b")
              for c in ("", ("a",)) for d in ("", (Change("", "b"),))]
    for k, s in enumerate(small):
        for esc in ("", "&ab"):
            marks = [Marks(r, 0, k % 2), Marks(r, 1, k % 2)]
            rec.case("small streams", f"{s} {esc!r} {marks[0].parts} {marks[1].parts}",
                     lambda: render_record(s, *marks, ("I", "F"), esc, None))
        marks = own_marks(r)
        rec.case("small streams", f"{s} {esc!r} {marks[0].parts} {marks[1].parts}",
                 lambda: render_record(s, *marks, ("I", "F"), "", None))
    for k in range(1500 if not THOROUGH else 40000):
        s = random_stream(r, k % 3)
        marks = [Marks(r, 0, r.random() < 0.5), Marks(r, 1, r.random() < 0.5)]
        if k % 5 == 0:
            marks = own_marks(r)
        names = r.choice([("into", "from"), ("x", "x"), ("a&", "b[]"), ("\u00e9", "")])
        esc = r.choice(["", "&", "&ab", "[]&\\", "\n&", "&\u00e9;"])
        header = r.choice([None, None, "", "header", "a&b"])
        rec.case("random streams", f"{s} {names} {esc!r} {header!r} {marks[0].parts} "
                 f"{marks[1].parts}", lambda: render_record(s, *marks, names, esc, header))
    # every combination of the tools' options
    combinations = [[o for j, o in enumerate(OPTIONS + ["-o"]) if c >> j & 1] for c in range(32)]
    for n in range(2 if not THOROUGH else 30):
        for tokenization in TOKENIZATION:
            for tool in ("merge", "diff"):
                ts = triple(r, 0.2, [o for o in texts.ODDITIES if len(o) != 7],
                            CONSOLE_BAD + "[]")
                data = [t.encode() for t in (ts[1:] if tool == "diff" else ts)]
                for options in combinations:
                    if tool == "diff" and "-d" in options:
                        continue
                    k = r.randrange(len(ENVIRONMENTS))
                    names = NAMES[0 if "-o" in options else n % 2]
                    rec.case("options of the tools", f"{tool} {tokenization} {options} {data}",
                             lambda: run(tool, data, names[: len(data)], tokenization, options,
                                         environment=ENVIRONMENTS[k], shuffle=rec.r))


# ------------------------------------------------------------------------------- C27
CONSOLE_ODD = [o for o in texts.ODDITIES if not set(o) & set(CONSOLE_BAD) and len(o) != 7]
CONSOLE_ODD += ["[b]", "[/b]", "\\[b]", "\\\\[b]", "[link=x]", "[@click=f]", "[#fff]", "[a", "[[", "]]",
                "[none]", "[/none]", "[bold red]", "\\\\\\", "\\[/]", "  ", ":100:", "http://a.b",
                "'x'", "1.5", "True", "/usr/bin", "\u3000", "\u00a0", "\u2003", "\ud55c\uae00"]
MARKUP = "[]\\a/"


def shown_record(stream, lines, environment):
    """A stream on the console, without a tool."""
    out = io.StringIO(newline="")
    saved = dict(os.environ)
    os.environ.update(environment)
    try:
        with contextlib.redirect_stdout(out), markup.console_writer() as (writer, escape):
            s = consolidated_line_diff(stream) if lines else stream
            markup.markup_changes(writer, s, markup0=markup.COLORED_LEVEL0,
                                  markup1=markup.COLORED_LEVEL1, name_into=escape("a"),
                                  name_from=escape("b"), escape=escape)
    finally:
        os.environ.clear()
        os.environ.update(saved)
    r = expectation([stream], lines, False)
    r.update(files=[], texts=[], into=[[]], names=[[]], out=points(STYLES.sub("", out.getvalue())))
    r["from"] = [[]]
    return r


def console(rec):
    r = rng("console")
    huge_runs(rec, [("-l", [], True), ("-l", ["-o"], False)])
    big = "a\u00e9 \n" * (gen.huge_size() // 4)   # not UTF-8, or at its end
    for k, data in enumerate(([big.encode() + b"\xff", big.encode("latin-1")],
                              [big.encode() + b"b", (big + "\u00e9").encode()],
                              [b"a\r\n" + big.encode() + b"b\r\n", b"a\r" + big.encode()])):
        rec.case("huge", f"encodings {k}", lambda: run(
            "merge", [data[1], data[0], data[1]], NAMES[0], "-l", ["-o"]))
    n = gen.huge_size()
    many = "".join(r.choice(["a", "\\", "b\n", "[", "]"]) for _ in range(n))
    for k, s in enumerate((["x", Change(many, "y"), many, Change("", many[::-1])],
                           ["a", Change("b", "[")] * (n // 16))):
        rec.case("huge", f"stream {k}", lambda: shown_record(s, False, {}))
    # the streams of ConsoleMachine, and longer ones
    short = list(texts.short("[]\\a", 2))
    every = [[t] for t in texts.short(MARKUP, 5 if THOROUGH else 4) if t]
    every += [[Change(a, b)] for a in short for b in short if a or b]
    more = [[t, Change(a, b)] for t in short if t for a in short for b in short if a or b]
    more += [[Change(a, b), t] for t in short if t for a in short for b in short if a or b]
    if not THOROUGH:
        more = r.sample(more, 1200)
    for k, s in enumerate(every + more):
        rec.case("small streams", f"{s}", lambda: shown_record(
            s, k % 3 == 2 and len(s) > 1, ENVIRONMENTS[k % len(ENVIRONMENTS)]))
    for k in range(800 if not THOROUGH else 20000):
        s, kind = [], r.random() < 0.5
        for _ in range(r.randint(1, 6)):
            t = [random_piece(r, r.choice([MARKUP, MARKUP + "\n", "[/]\n", "\\[\n", ": [", "a \n"]))
                 + r.choice(["", "", r.choice(CONSOLE_ODD)]) for _ in "ab"]
            if kind and (t[0] or t[1]):
                s.append(Change(*t))
            elif t[0]:
                s.append(t[0])
            kind = not kind
        rec.case("random streams", f"{s}", lambda: shown_record(
            s, k % 2 == 1, ENVIRONMENTS[k % len(ENVIRONMENTS)]))
    for k in range(900 if not THOROUGH else 15000):
        tool = ["merge", "merge", "diff"][k % 3]
        to_file = tool == "merge" and k % 2
        ts = triple(r, r.choice([0.1, 0.5]), CONSOLE_ODD if k % 4 else None,
                    "" if to_file else CONSOLE_BAD)
        if tool == "merge" and k % 4 < 3:
            # edits at both ends, mostly without a conflict
            p, a, b = ts
            ts = [f"first\n{p}last\n", f"first\n{p}last\n{a}", f"{b}first\n{p}last\n"]
        if to_file:
            data = encoded(r, ts)
            s = streams_of("merge", [decoded(d) for d in data], "char", False)[0]
            if any(isinstance(x, Change) for x in s):
                ts = [cleaned(t, "[]") for t in ts]
                data = [t.encode() for t in ts]
        else:
            data = [t.encode() for t in (ts[1:] if tool == "diff" else ts)]
            if r.random() < 0.3:
                data = [t.replace(b"\n", b"\r\n") for t in data]
        options = ["-o"] if to_file else ["-L"] if r.random() < 0.2 else []
        tokenization = "" if to_file else r.choice(list(TOKENIZATION))
        rec.case("file" if to_file else "console", f"{tool} {options} {data}", lambda: run(
            tool, data, NAMES[k % len(NAMES)][: len(data)], tokenization, options,
            environment=ENVIRONMENTS[k % len(ENVIRONMENTS)], existing=b"old\n" * (k % 300)))
    # bytes that are, or are not, UTF-8
    units = [b"a", b"\n", b"\r", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xff", b"\xc3",
             b"\xa9", b"\xed\xa0\x80", b"\xc0\x80", b"\xe0\x80\x80", b"\xf4\x90\x80\x80", b"\xef\xbb\xbf",
             b"\xf0\x80\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xed\x9f\xbf", b"\x85", b"\xe2\x82"]
    for k in range(400 if not THOROUGH else 4000):
        base = b"".join(r.choice(units) for _ in range(r.randint(0, 5)))
        if k % 2:   # only -o has to be exact for every character
            data = [b"one\n", b"one\n" + base, b"one\n"]
            if k % 4 == 1:
                data = [data[1], data[1], data[1] + b"\ntwo"]
            tool, options = "merge", ["-o"]
            case = lambda: run(tool, data, NAMES[0], "-l", options)
        else:
            ts = [decoded(b) for b in (base, base + r.choice(units))]
            if any(set(t) & set(CONSOLE_BAD) for t in ts):
                continue
            data = [base, base + b"-" + r.choice([b"", b"\xe9", b"\xff\xfe"])]
            case = lambda: run("diff", data, NAMES[0][:2], "", [])
        rec.case("encodings", f"{data}", case)
    high = bytes(range(160, 256))
    for data in [bytes(b for b in range(1, 256) if b != 13), high, *(
            b"a" + bytes((b,)) + b"b\n" for b in range(128, 256))]:
        rec.case("every byte", f"{data}", lambda: run(
            "merge", [b"one\n", b"one\n" + data, b"one\n"], NAMES[0], "", ["-o"]))
    for k in range(0, 96, 8):
        rec.case("every byte", f"{k}", lambda: run(
            "diff", [b"x\xff\n", b"x" + high[k : k + 8]], NAMES[0][:2], "-w", []))
    # long lines
    for k in range(24 if not THOROUGH else 200):
        n = r.choice([79, 80, 81, 200, 1500])
        one = "".join(r.choice(["a", " ", "  ", "\u4e2d", "word ", "-"]) for _ in range(n))
        p = f"{one}\nx\n"
        a = p.replace("x", "y")
        b = p[: n // 2] + "z" + p[n // 2 :]
        data = [t.encode() for t in ((p, a, b) if k % 2 else (p, b))]
        rec.case("long lines", f"{data}", lambda: run(
            "merge" if k % 2 else "diff", data, NAMES[0][: len(data)], ["", "-w", "-l"][k % 3], [],
            environment=ENVIRONMENTS[k % len(ENVIRONMENTS)]))
    for k in range(32 if not THOROUGH else 300):
        tool = "merge" if k % 2 else "diff"
        ts = triple(r, 0.5, CONSOLE_ODD, CONSOLE_BAD)
        data = [t.encode() for t in (ts[1:] if tool == "diff" else ts)]
        how = [piped, on_terminal, on_terminal][k % 3]
        rec.case(how.__name__, f"{tool} {data}", lambda: run(
            tool, data, NAMES[k % 2][: len(data)], ["", "-w"][k // 2 % 2], [], how))


if __name__ == "__main__":
    main({"git": git, "render": render, "console": console})
