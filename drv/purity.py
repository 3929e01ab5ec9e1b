"""Records results that are taken from while others are made and taken from."""
import fractions, itertools, json, os, signal, sqlite3, sys, threading
from common import main, THOROUGH, Malformed
import gen, histories, texts
from gen import rng
from store import memory_store, database_store, one_connection
from tokens import MAKERS
import tools

from gaspra import changesets, diff_to_lines, markup, multiple_strings, serialize, tokenizers
from gaspra import suffix_automaton as sa
from gaspra import wrappers
from gaspra.manifest import add_manifest, get_manifest
from gaspra.merge import merge_token_sequence
from gaspra.types import Change


# --------------------------------------------------------------------------- worlds
class Word(int):
    """Equal to its number, and not it."""

    def __repr__(self):
        return f"word {int(self)}"


NUMBERS = {"ints": int, "floats": float, "words": Word, "mixed": lambda x: (
    (float, int, Word)[x % 3](x) if x else False), "fractions": fractions.Fraction}


class World:
    """Arguments that calls share.  The same seed gives equal ones."""

    def __init__(self, seed):
        self.stamp = itertools.count()
        self.become(seed)

    def become(self, seed):
        """Give all arguments the values that they have in another world; where that is possible,
        the objects stay what they are."""
        r = rng("world", seed)
        lists = str(seed).startswith("lists")
        old = self.__dict__.get("seqs", [])
        self.seed = seed
        kind = r.choice(["ints", "lists", "text", "bytes", "text-lines", "tuples"])
        kind = "lists" if lists else kind
        numbers = str(seed).split(" ")[0]
        if numbers in NUMBERS:  # equal, but not the same
            r = rng("world", str(seed).split(" ")[1])
            kind = r.choice(["tuples of numbers"] * 2 + ["lists of numbers"])
        p = gen.base(r, r.randint(0, 12) if r.random() < 0.75 else r.randint(150, 400),
                     r.choice([2, 4, 20]))
        n = max(p, default=0) + 2
        trio = [p, gen.edit(r, p, n, r.randint(0, 4)), gen.edit(r, p, n, r.randint(0, 4))]
        if r.random() < 0.6:  # changes that collide
            for b in (1, 2):
                trio[b] = tuple(y for x in p for y in (
                    (x,) if r.random() < 0.6 else (n + b, n + r.randrange(4)) if r.random() < 0.7
                    else ()))
        if numbers in NUMBERS:
            made = [[NUMBERS[numbers](x) for x in s] for s in trio]
            self.seqs = [tuple(s) if kind == "tuples of numbers" else s for s in made]
        else:
            self.seqs = [list(s) if kind == "lists" else gen.concrete(kind, s) for s in trio]
        for k, x in enumerate(old):
            if type(x) is type(self.seqs[k]) is list:
                x[:] = self.seqs[k]
                self.seqs[k] = x
        self.words = [tuple(s) for s in trio]
        self.texts = list(texts.triple(r, odd=0.2, lines=r.randint(0, 6)))
        if r.random() < 0.6:
            p = [texts.line(r, 0.1) for _ in range(6)]
            self.texts = ["".join(p)] + ["".join(
                x if r.random() < 0.5 else f"{r.choice(texts.WORDS)} {x}" for x in p)
                for _ in range(2)]
        self.contents = [t.encode("utf-8", "replace") for t in self.texts]
        self.tokenizers = {k: m() for k, m in MAKERS.items()}
        self._made = {}
        self.bases = [k and r.randint(0, k) for k in range(5)]
        self.versions = histories.contents(r, self.bases, "texts", "char")
        self.markups = [
            {"into": dict(m["into"]), "from": dict(m["from"]), "separator": m["separator"], **header}
            for m, header in ((markup.GIT_MARKUP_LEVEL0, {}), (markup.COLORED_LEVEL0, {"header": {}}),
                              (markup.PLAIN_LEVEL1, {"header": {"prefix": "# "}}))]
        self.patch = [b"ab", slice(0, 3), slice(5, 9), b"c", b"", slice(9, 300)]

    def made(self, name, make):
        if name not in self._made:
            self._made[name] = make()
        return self._made[name]

    def root(self, k):
        return self.made(f"root{k}", lambda: sa.build(self.seqs[k]))

    def changeset(self, k):
        return self.made(f"changeset{k}", lambda: changesets.find_changeset(self.seqs[0], self.seqs[k]))

    def store(self, kind):
        def make():
            s = memory_store("line") if kind == "memory" else database_store("line", one_connection())
            for v, (base, c) in enumerate(zip(self.bases, self.versions)):
                s.add(f"v{v + 1}", c, f"v{base}" if base else None)
            return s
        return self.made(f"store {kind}", make)

    def manifests(self):
        def make():
            s = memory_store("line")
            add_manifest("m1", {"x": "x1", "y": "y1"}, s, {"x1": b"1\n2\n", "y1": b"y\n"}, None)
            add_manifest("m2", {"x": "x2", "y": "y1"}, s, {"x2": b"1\n3\n"}, "m1")
            return s
        return self.made("manifests", make)

    def state(self):
        """The arguments, for comparison."""
        return repr([self.seqs, self.words, self.texts, self.contents, self.versions, self.patch,
                     plain(self.markups)])


def plain(x):
    """x, with functions as what they make."""
    if callable(x):
        return x("name")
    if type(x) is dict:
        return {k: plain(y) for k, y in x.items()}
    return [plain(y) for y in x] if type(x) is list else x


def session(kind, tokenizer, w):
    """A store of its own, used step by step."""
    s = memory_store(tokenizer) if kind == "memory" else database_store(tokenizer, one_connection())
    for v, (base, c) in enumerate(zip(w.bases, w.versions)):
        s.add(f"s{v}", c, f"s{base - 1}" if base else None)
        yield [s.get(f"s{u}") for u in range(v + 2)]
        yield [repr(s.version_info(f"s{u}")) for u in range(v + 2)]
        yield [s.tree.path_to(f"s{u}") for u in range(v + 2)]


def manifest_session(w):
    s = memory_store("line")
    for k, c in enumerate(w.contents):
        add_manifest(f"m{k}", {"n": f"i{k}", "o": f"i{k // 2}"}, s, {f"i{k}": c},
                     f"m{k - 1}" if k else None)
        yield [get_manifest(s, f"m{j}") for j in range(k + 1)]
        yield s.get(f"i{k}")


def collection_session(w):
    from gaspra.db_collections import DBCollection
    connect = one_connection()
    c, d = DBCollection("one", connect), DBCollection("other", connect)
    for k, x in enumerate(w.contents):
        c[f"k{k}"] = x
        yield sorted(c), len(c), len(d), d.get(f"k{k}")
        d[f"k{k}"] = x + b"!"
        yield c[f"k{k}"], d[f"k{k}"], sorted(d)
    del c["k0"]
    yield sorted(c), sorted(d)


def rendered(w, k, options):
    """What a tool shows."""
    where = os.path.join(os.getcwd(), f"pure-{os.getpid()}-{next(w.stamp)}")
    os.makedirs(where)
    try:
        names = []
        for j, t in enumerate(w.contents[:k]):
            names.append(os.path.join(where, f"file{j}"))
            with open(names[-1], "wb") as f:
                f.write(t)
        out = tools.in_process("diff" if k == 2 else "merge", [*options, *names], {})
        yield out
    finally:
        for name in names:
            os.unlink(name)
        os.rmdir(where)


def marked(w, k, style):
    out = []
    level0 = {"git": markup.GIT_MARKUP_LEVEL0, "color": markup.COLORED_LEVEL0}[style]
    stream = tokenizers.diff(w.texts[0], w.texts[k], tokenizers.SymbolTokenizer())
    markup.markup_changes(out.append, diff_to_lines.consolidated_line_diff(stream), level0,
                          markup.PLAIN_LEVEL1, "into", "from", header="h")
    return out


def own_markup(w, j, k):
    out = []
    markup.markup_changes(out.append, tokenizers.diff(w.texts[0], w.texts[k]), w.markups[j],
                          w.markups[k], "into", "from", header=("h", None, "of mine")[j])
    markup.show_header(out.append, "header", w.markups[k])
    return out


def numbers(n):
    yield serialize.vserialize_int(n)
    yield serialize.vdeserialize_int(serialize.vserialize_int(n) + b"rest")
    yield serialize.serialize_int(n)


def calls():
    """name -> function of a world and of two numbers."""
    d = changesets.diff_token_sequences
    return {
        "diff": lambda w, j, k: d(w.seqs[j], w.seqs[k]),
        "change stream": lambda w, j, k: changesets.find_changeset(
            w.seqs[j], w.seqs[k]).as_change_stream(),
        "stream of a changeset": lambda w, j, k: w.changeset(k).as_change_stream(),
        "diff of a changeset": lambda w, j, k: w.changeset(k).as_diff_stream(w.seqs[0]),
        "forward": lambda w, j, k: changesets.strip_forward(w.changeset(k).as_change_stream()),
        "reverse": lambda w, j, k: changesets.strip_reverse(w.changeset(k).as_change_stream()),
        "apply": lambda w, j, k: [changesets.apply(
            list(changesets.strip_forward(w.changeset(k).as_change_stream())), w.seqs[0])],
        "apply forward": lambda w, j, k: [changesets.apply_forward(
            w.changeset(k).as_change_stream(), w.seqs[0])],
        "merge": lambda w, j, k: merge_token_sequence(w.seqs[0], w.seqs[j], w.seqs[k]),
        "lcs": lambda w, j, k: [wrappers.find_lcs(w.seqs[j], w.seqs[k])],
        "lcs of an automaton": lambda w, j, k: [sa.find_lcs(w.root(j), w.seqs[k])],
        "find all": lambda w, j, k: sa.find_substring_all(w.root(j), w.seqs[k][:1]),
        "find nothing": lambda w, j, k: sa.find_substring_all(w.root(j), w.seqs[k][:0]),
        "find": lambda w, j, k: [sa.find_substring(w.root(j), w.seqs[k][1:3])],
        "suffixes": lambda w, j, k: sa.all_suffixes(sa.build(w.words[j])),
        "suffixes of one automaton": lambda w, j, k: sa.all_suffixes(
            w.made(f"words{j}", lambda: sa.build(w.words[j]))),
        "n-way": lambda w, j, k: [multiple_strings.find_lcs(*w.seqs[: j + 1], w.seqs[k])],
        "n-way of many": lambda w, j, k: [multiple_strings.find_lcs(
            *(s[x:] for x in range(2) for s in w.seqs), w.seqs[k])][: j + 1],
        "text diff": lambda w, j, k: tokenizers.diff(w.texts[j], w.texts[k]),
        "text merge": lambda w, j, k: tokenizers.merged(w.texts[0], w.texts[j], w.texts[k]),
        "line diff": lambda w, j, k: tokenizers.diff(
            w.texts[j], w.texts[k], w.tokenizers["line"]),
        "symbol diff": lambda w, j, k: tokenizers.diff(
            w.texts[j], w.texts[k], w.tokenizers["symbol"]),
        "line merge": lambda w, j, k: tokenizers.merged(
            w.texts[0], w.texts[j], w.texts[k], w.tokenizers["line"]),
        "symbol merge": lambda w, j, k: tokenizers.merged(
            w.texts[0], w.texts[j], w.texts[k], w.tokenizers["symbol"]),
        "own tokenizer": lambda w, j, k: tokenizers.merged(
            w.contents[0], w.contents[j], w.contents[k],
            [tokenizers.LineTokenizer, tokenizers.SymbolTokenizer, tokenizers.CharTokenizer][j]()),
        "by lines": lambda w, j, k: diff_to_lines.to_line_diff(
            tokenizers.diff(w.texts[j], w.texts[k], w.tokenizers["char"])),
        "by whole lines": lambda w, j, k: diff_to_lines.consolidated_line_diff(
            tokenizers.diff(w.texts[j], w.texts[k], w.tokenizers["symbol"])),
        "merge by lines": lambda w, j, k: diff_to_lines.consolidated_line_diff(
            tokenizers.merged(w.texts[0], w.texts[j], w.texts[k], w.tokenizers["char"])),
        "lines encoded": lambda w, j, k: tokenizers.line_encode_strings(w.texts[j], w.texts[k]),
        "stored patch": lambda w, j, k: serialize.deserialize_changeset(
            serialize.serialize_changeset(w.patch[j:])),
        "numbers": lambda w, j, k: numbers((23, 24, 2287, 67823, 10**6)[j + k]),
        "store": lambda w, j, k: session("memory", list(MAKERS)[j + k - 1 & 3], w),
        "database": lambda w, j, k: session("database", "line", w),
        "versions": lambda w, j, k: (w.store("memory").get(f"v{x}") for x in range(7)),
        "versions in a database": lambda w, j, k: (
            w.store("database").get(f"v{x}") for x in range(7)),
        "paths": lambda w, j, k: (w.store("memory").tree.path_to(f"v{x}") for x in range(7)),
        "infos": lambda w, j, k: (repr(w.store("database").version_info(f"v{x}"))
                                  for x in range(7)),
        "manifests": lambda w, j, k: manifest_session(w),
        "a manifest": lambda w, j, k: [get_manifest(w.manifests(), "m2"),
                                       get_manifest(w.manifests(), "m1")],
        "collections": lambda w, j, k: collection_session(w),
        "marked": lambda w, j, k: marked(w, k, ("git", "color")[j & 1]),
        "marked as the caller wants": own_markup,
        "diff shown": lambda w, j, k: rendered(w, 2, [["-s"], ["-s", "-L", "-w"], ["-g"]][j]),
        "diff shown too": lambda w, j, k: rendered(w, 2, [["-L"], ["-L", "-w"], []][j]),
        "merge shown": lambda w, j, k: rendered(w, 3, [["-d", "-s"], ["-L", "-w"], ["-g", "-c"]][j]),
        "merge shown too": lambda w, j, k: rendered(w, 3, [["-d"], ["-d", "-L", "-w"], ["-l"]][j]),
    }


CALLS = calls()
NAMES = list(CALLS)
SEQUENCES = [n for n in NAMES[:18] if not n.startswith("suffixes")]
# What comes from objects that the calls share may be parts of these.
OWN = {n for n in NAMES if n in (
    "diff", "change stream", "merge", "lcs", "n-way", "n-way of many", "suffixes", "text diff",
    "text merge", "line diff", "symbol diff", "line merge", "symbol merge", "own tokenizer",
    "by lines", "by whole lines", "merge by lines", "marked as the caller wants",
    "lines encoded", "stored patch", "a manifest")}
NO_THREADS = [n for n in NAMES if "shown" in n or "database" in n or n in ("collections", "infos")]


def texted(item):
    """What is taken, as a text."""
    return f"{type(item).__name__} {item!r}"


# -------------------------------------------------------------------------- running
def empty(x, spared):
    """Empty all lists and the like in x."""
    if id(x) in spared:
        return
    if isinstance(x, dict):
        for y in x.values():
            empty(y, spared)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for y in x:
            empty(y, spared)
        if type(x) is list:
            x.clear()
    elif hasattr(x, "__dataclass_fields__"):
        for y in x.__dataclass_fields__:
            empty(getattr(x, y, None), spared)
    elif isinstance(x, (set, bytearray)):
        x.clear()


class Result:
    def __init__(self, w, call):
        name, j, k = call
        self.own, self.world = name in OWN, w
        self.items = []          # as texts, when they were taken
        self.held = []           # themselves
        try:
            self.value = CALLS[name](w, j, k)
            self.source = iter(self.value)
        except Exception as e:
            self.value = None
            self.source = iter([f"raises {type(e).__name__}"])

    def take(self):
        """The next item as a text, or None."""
        try:
            item = next(self.source)
        except StopIteration:
            return None
        except Exception as e:
            self.source = iter(())
            item = f"raises {type(e).__name__}: {e}"
        self.held.append(item)
        self.items.append(texted(item))
        return self.items[-1]

    def drain(self, limit=3000):
        out = []
        while (x := self.take()) is not None and len(out) < limit:
            out.append(x)
        return out

    def drop(self):
        if hasattr(self.source, "close"):
            self.source.close()

    def spoil(self):
        """What a caller may do with what it got."""
        if self.own:
            w = self.world
            spared = {id(x) for x in (*w.seqs, w.patch, *w.patch)}
            for x in (*self.held, self.value):
                empty(x, spared)
            self.held.clear()
            self.items.clear()

    def changed(self):
        return [k for k, (item, t) in enumerate(zip(self.held, self.items)) if texted(item) != t]


def apart(function, seconds=60):
    """The answer of a function in a process of its own."""
    ours, theirs = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(ours)
            signal.alarm(0)
            data = json.dumps(function()).encode()
            with os.fdopen(theirs, "wb") as f:
                f.write(data)
            code = 0
        except BaseException as e:
            sys.stderr.write(f"{type(e).__name__}: {e}\n")
        finally:
            os._exit(code)
    os.close(theirs)
    try:
        with os.fdopen(ours, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    if os.waitpid(pid, 0)[1]:
        raise RuntimeError("a process failed")
    return json.loads(data)


_alone = {}


def alone(seed, call):
    key = (seed, *call)
    if key not in _alone:
        _alone[key] = apart(lambda: Result(World(seed), call).drain())
    return _alone[key]


def follow(seed, chosen, schedule, later=None):
    """later: the world that the caller makes of the arguments in the end."""
    w = World(seed)
    before = w.state()
    results, events = [], []
    for what, k in schedule:
        if what == "call":
            results.append(Result(w, chosen[k - 1]))
            events.append(["call", k, []])
            continue
        x = results[k - 1]
        if what == "take":
            got = x.take()
            events.append(["take", k, [] if got is None else [got]])
        elif what == "drain":
            events.append(["drain", k, x.drain()])
            x.spoil()
        else:
            x.drop()
            events.append(["drop", k, []])
    for c, call in enumerate(chosen):  # and once more, each
        results.append(Result(w, call))
        events.append(["call", c + 1, []])
        events.append(["drain", len(results), results[-1].drain()])
    changed = [k + 1 for k, x in enumerate(results) if x.changed()]
    if later is not None:
        if w.state() != before:
            changed.append(0)
        w._made.clear()
        w.become(later)
        before = w.state()
        for c, call in enumerate(chosen * 2):
            results.append(Result(w, call))
            events.append(["call", c % len(chosen) + len(chosen) + 1, []])
            events.append(["drain", len(results), results[-1].drain()])
    return {"events": events, "changed": changed,
            "arguments": [before, w.state()]}


def threaded(seed, chosen, repeat):
    """Every thread makes its calls, all at the same time."""
    w = World(seed)
    before = w.state()
    for call in chosen:                # what they share is made before
        Result(w, call).drain()
    sys.setswitchinterval(1e-6)
    done = [[] for _ in chosen]
    start = threading.Barrier(len(chosen))

    def work(c):
        start.wait()
        for _ in range(repeat):
            done[c].append(Result(w, chosen[c]).drain())

    threads = [threading.Thread(target=work, args=(c,)) for c in range(len(chosen))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    events, n = [], 0
    for c, drained in enumerate(done):
        if len(drained) != repeat:
            raise RuntimeError("a thread failed")
        for items in drained:
            n += 1
            events += [["call", c + 1, []], ["drain", n, items]]
    return {"events": events, "changed": [], "arguments": [before, w.state()]}


def record(seed, chosen, run, later=None):
    number = {}

    def num(items):
        return [number.setdefault(x, len(number) + 1) for x in items]

    answers = [num(alone(seed, c)) for c in chosen]
    if later is not None:
        answers += [num(alone(later, c)) for c in chosen]
    got = apart(run)
    return {"alone": answers, "events": [[a, b, num(c)] for a, b, c in got["events"]],
            "changed": got["changed"], "arguments": num(got["arguments"])}


def random_schedule(r, calls, steps, results):
    out, live, n = [], [], 0
    for _ in range(steps):
        c = r.random()
        if not live or (n < results and c < 0.3):
            n += 1
            live.append(n)
            out.append(("call", r.randint(1, calls)))
        elif c < 0.8:
            out.append(("take", r.choice(live)))
        else:
            k = live.pop(r.randrange(len(live)))
            out.append((r.choice(["drain", "drain", "drop"]), k))
    return out + [("drain", k) for k in live]


def pick(r, names):
    j, k = r.randrange(3), r.randrange(3)
    return r.choice(names), j, (k or 1)


def purity(rec):
    r = rng("purity")
    found = histories.from_specification()
    if len(found) > 1800 and not THOROUGH:
        found = r.sample(found, 1800)
    worlds = 24 if not THOROUGH else 300
    # the schedules of the specification, on every function and on pairs of them
    for n, schedule in enumerate(found):
        seed = r.randrange(worlds)
        first = (NAMES[n % len(NAMES)], r.randrange(3), r.choice([1, 2]))
        second = (first[0] if n % 3 == 0 else r.choice(NAMES), r.randrange(3), r.choice([1, 2]))
        rec.case("schedules of the specification", f"{seed} {first} {second} {schedule}",
                 lambda: record(seed, [first, second],
                                lambda: follow(seed, [first, second], schedule)))
    for _ in range(250 if not THOROUGH else 5000):
        seed = r.randrange(worlds)
        chosen = [pick(r, NAMES) for _ in range(r.randint(2, 8))]
        schedule = random_schedule(r, len(chosen), r.choice([20, 60]), r.choice([4, 12, 30]))
        rec.case("long schedules", f"{seed} {chosen} {schedule}", lambda: record(
            seed, chosen, lambda: follow(seed, chosen, schedule)))
    for n in range(150 if not THOROUGH else 3000):
        seed, later = (f"lists {r.randrange(worlds)}" for _ in range(2))
        chosen = [pick(r, NAMES if n % 3 else NAMES[:19]) for _ in range(r.randint(2, 6))]
        schedule = random_schedule(r, len(chosen), 20, 8)
        rec.case("arguments altered by the caller", f"{seed} {later} {chosen} {schedule}",
                 lambda: record(seed, chosen, lambda: follow(seed, chosen, schedule, later), later))
    for n in range(120 if not THOROUGH else 2000):
        seed, later = (f"{kind} {n % 40}" for kind in r.sample(list(NUMBERS), 2))
        chosen = [pick(r, SEQUENCES) for _ in range(r.randint(2, 6))]
        schedule = random_schedule(r, len(chosen), 20, 8)
        rec.case("equal arguments of other types", f"{seed} {later} {chosen} {schedule}",
                 lambda: record(seed, chosen, lambda: follow(seed, chosen, schedule, later), later))
    names = [n for n in NAMES if n not in NO_THREADS]
    for n in range(60 if not THOROUGH else 1500):
        seed = r.randrange(worlds)
        if n % 2:
            chosen = [(names[n % len(names)], r.randrange(3), r.choice([1, 2])) for _ in range(4)]
        else:
            chosen = [pick(r, names) for _ in range(4)]
        rec.case("threads", f"{seed} {chosen}", lambda: record(
            seed, chosen, lambda: threaded(seed, chosen, 12)))
    # many calls in one process, also with many different arguments
    for n in range(6 if not THOROUGH else 60):
        seed = r.randrange(worlds)
        chosen = [(name, r.randrange(3), r.choice([1, 2])) for name in r.sample(NAMES, 20)]
        schedule = [s for k in range(1, 241) for s in (("call", r.randint(1, 20)), ("drain", k))]
        rec.case("many calls", f"{seed} {chosen} {schedule}", lambda: record(
            seed, chosen, lambda: follow(seed, chosen, schedule)))


if __name__ == "__main__":
    main({"calls": purity})
