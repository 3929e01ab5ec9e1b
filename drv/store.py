"""Records histories of version stores."""
import os, sqlite3, tempfile, threading
from common import main, THOROUGH, Malformed
import gen, histories, texts
from gen import rng
from histories import SHAPES
from tokens import MAKERS

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions


class Noting(dict):
    """A mapping that notes what is stored in it."""

    def __init__(self):
        self.stored = []

    def __setitem__(self, key, value):
        self.stored.append(key)
        super().__setitem__(key, value)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v


class NotingCollection(DBCollection):
    def __init__(self, *a):
        self.stored = []
        super().__init__(*a)

    def __setitem__(self, key, value):
        self.stored.append(key)
        super().__setitem__(key, value)


def memory_store(tokenizer):
    return Versions(head_version=Noting(), diffs=Noting(), tree=MemoryTree(),
                    tokenizer_factory=MAKERS[tokenizer])


def one_connection():
    connection = sqlite3.connect(":memory:")
    return lambda: connection


_files = [0]


def many_connections():
    """A new connection every time, to a file in the scratch directory."""
    _files[0] += 1
    path = os.path.join(os.getcwd(), f"store-{os.getpid()}-{_files[0]}.db")
    open(path, "w").close()

    def connect():
        connection = sqlite3.connect(path)
        connection.execute("PRAGMA synchronous = OFF")
        return connection

    connect.path = path
    return connect


def thread_connections():
    """A connection for each thread, to a file in the scratch directory."""
    anew, local = many_connections(), threading.local()

    def connect():
        if not hasattr(local, "connection"):
            local.connection = anew()
        return local.connection

    connect.path = anew.path
    return connect


def clean_up(connect):
    """Remove the file of many_connections."""
    if hasattr(connect, "path"):
        for suffix in ("", "-journal", "-wal", "-shm"):
            if os.path.exists(connect.path + suffix):
                os.unlink(connect.path + suffix)


def database_store(tokenizer, connect):
    return Versions(head_version=NotingCollection("heads", connect),
                    diffs=NotingCollection("diffs", connect), tree=DBTree(connect),
                    tokenizer_factory=MAKERS[tokenizer])


class Ids:
    """Numbers for contents."""

    def __init__(self):
        self.table = {}

    def new(self, content):
        return self.table.setdefault(content, len(self.table) + 1)

    def known(self, content):
        if content is None:
            return 0
        if type(content) is not bytes:
            return -1
        return self.table.get(content, -1)


ABSENT = object()

MEMORY_TAGS = [
    [f"v{k}" for k in range(4000)],
    list(range(4000)),
    [0, "", (), b"", False + 2, "0", frozenset(), -1.5, ("a", 1), "a", b"a", "None"]
    + [("t", k) for k in range(4000)],
]
DB_TAGS = [
    [f"v{k}" for k in range(4000)],
    ["", "a", "A", " a", "a ", "1", "01", "1.0", "'", '"', "%", "_", "NULL", "None", "e\u0301",
     "\u00e9", "\U0001f600", "a\n", "x' OR '1'='1", "1e0", "\\"] + [f"\u4e2d{k}" for k in range(4000)],
]


class Run:
    """One history in one store, with observations."""

    def __init__(self, store, tags, absent, ids, observe, sample, r):
        self.store, self.tags, self.absent, self.ids = store, tags, absent, ids
        self.observe, self.sample, self.r = observe, sample, r
        self.number = {}
        self.count = 0
        self.events = []

    def tag(self, v):
        return self.tags[v - 1] if v else self.absent

    def add_all(self, steps):
        """Several additions, and a look after the last one."""
        failed, looked, n = False, self.look, len(self.events)
        self.look = lambda everything=False: {}
        try:
            for base, content in steps:
                if not self.add(base, content):
                    failed = True
                    break
        finally:
            self.look = looked
            batch, self.events = self.events[n:], self.events[:n]
        self.events.append({"op": "adds", "added": [e["base"] for e in batch],
                            "contents": [e["content"] for e in batch],
                            "failed": failed, **self.look()})
        return not failed

    def add(self, base, content):
        event = {"op": "add", "base": base, "content": self.ids.new(content), "failed": False}
        self.store.diffs.stored.clear()
        tag = self.tags[self.count]
        try:
            if base:
                self.store.add(tag, content, self.tag(base))
            elif self.count % 2:
                self.store.add(tag, content, None)
            else:
                self.store.add(tag, content)
        except Exception as e:
            event["failed"] = True
            event["why"] = f"{type(e).__name__}: {e}"[:200]
        self.number[tag] = self.count = self.count + 1
        self.events.append({**event, **self.look()})
        return not event["failed"]

    def reject(self, tag, content, *base):
        event = {"op": "reject", "base": 0, "content": 0, "failed": False}
        self.store.diffs.stored.clear()
        try:
            self.store.add(tag, content, *base)
        except Exception as e:
            event["failed"] = True
        self.events.append({**event, **self.look()})
        return event["failed"]

    def versions(self, everything=False):
        every = list(range(1, self.count + 1))
        if everything or self.sample is None or self.count <= self.sample:
            return every
        some = set(self.r.sample(every, self.sample // 2))
        some |= set(every[-3:]) | set(every[:2])
        return sorted(some)

    def look(self, everything=False):
        out = {}
        vs = self.versions(everything)
        s = self.store
        if "gets" in self.observe:
            out["gets"] = [[v, self.ids.known(s.get(self.tag(v)))] for v in [*vs, 0, self.count + 1]]
        if "has" in self.observe:
            out["has"] = [[v, 1 if self.tag(v) in s else 0] for v in [*vs, 0, self.count + 1]]
        if "infos" in self.observe:
            out["infos"] = [self.info(v) for v in [*vs, 0, self.count + 1]]
        if "paths" in self.observe:
            out["paths"] = [{"v": v, "path": self.path(v)} for v in [*vs, 0, self.count + 1]]
        if "storage" in self.observe:
            out["verbatim"] = [self.number.get(t, 0) for t in s.head_version]
            out["written"] = sorted({self.number.get(t, 0) for t in s.diffs.stored})
        return out

    def path(self, v):
        p = self.store.tree.path_to(self.tag(v))
        if not p:
            return []
        return [self.number.get(t, 0) for t in p]

    def info(self, v):
        i = self.store.version_info(self.tag(v))
        if i is None:
            return {"v": v, "known": False, "base": 0, "tokens": 0, "changes": 0}
        base = i.base_version
        return {"v": v, "known": True,
                "base": 0 if base is None else self.number.get(base, -1),
                "tokens": i.token_count, "changes": i.change_count}

    def finish(self):
        """Look at everything twice."""
        for _ in range(2):
            self.events[-1].update(self.look(True))


def run_in(kind, tokenizer, tags_k, history, observe, sample, r, ids):
    """history: list of (base, content) or of functions of a Run."""
    connect = None
    if kind == "memory":
        store, tags = memory_store(tokenizer), MEMORY_TAGS[tags_k % len(MEMORY_TAGS)]
        absent = ("no", "tag")
    else:
        connect = one_connection() if kind == "one connection" else many_connections()
        store, tags = database_store(tokenizer, connect), DB_TAGS[tags_k % len(DB_TAGS)]
        absent = "no tag"
    run = Run(store, tags, absent, ids, observe, sample, r)
    run.tokenizer = tokenizer
    try:
        for step in history:
            if callable(step):
                ok = step(run)
            elif type(step) is list:
                ok = run.add_all(step)
            else:
                ok = run.add(*step)
            if not ok:
                break
        if run.events:
            run.finish()
    finally:
        clean_up(connect)
    return run.events


def record(kinds, tokenizer, tags_k, history, observe, sample=None, salt=0):
    ids = Ids()
    runs = [run_in(kind, tokenizer, tags_k, history, observe, sample, rng("run", salt), ids)
            for kind in kinds]
    size = [0] * len(ids.table)
    for c, k in ids.table.items():
        size[k - 1] = len(c)
    return {"runs": runs, "size": size}


STORAGE = ["memory", "one connection", "many connections"]
TOKENIZERS = list(MAKERS)


def jobs(r, styles=("tiny", "documents", "binary"), budget=1.0):
    """(class, storage, tokenizer, bases, contents)"""
    every = histories.from_specification()
    for k, bases in enumerate(every):
        tokenizer = TOKENIZERS[k % 4]
        style = styles[(k // 4) % len(styles)] if k % 3 else "tiny"
        yield ("histories of the specification", STORAGE[1] if k % 5 == 0 else STORAGE[0],
               tokenizer, bases, histories.contents(r, bases, style, tokenizer))
    count = int((240 if not THOROUGH else 4000) * budget)
    for k in range(count):
        shape = SHAPES[k % len(SHAPES)]
        tokenizer = TOKENIZERS[(k // 2) % 4]
        n = r.choice([6, 9, 12, 16])
        bases = histories.shapes(r, n, shape)
        storage = STORAGE[0] if k % 3 else STORAGE[1 + (k // 3) % 2]
        yield (f"random: {shape}", storage, tokenizer, bases,
               histories.contents(r, bases, r.choice(styles), tokenizer))


def long_jobs(r, sizes):
    for k, n in enumerate(sizes):
        for shape in ("linear", "branches", "restarts"):
            tokenizer = ["line", "null", "symbol", "char"][k % 4]
            bases = histories.shapes(r, n, shape)
            pool = []
            for base in bases:
                if not base or r.random() < 0.02:
                    pool.append(texts.document(r, lines=6, odd=0.1).encode())
                else:
                    c = texts.edited(r, pool[base - 1].decode(), 1, odd=0.1)
                    pool.append(c[:600].encode("utf-8"))
            yield ("long histories", STORAGE[k % 2], tokenizer, bases, pool)


def gets(rec):
    r = rng("gets")
    k = 0
    for k, (cls, storage, tokenizer, bases, cs) in enumerate(jobs(r)):
        rec.case(cls, f"{storage} {tokenizer} {list(zip(bases, cs))}", lambda: record(
            [storage], tokenizer, k, list(zip(bases, cs)), {"gets"}, salt=k))
    for cls, storage, tokenizer, bases, cs in long_jobs(
            r, (40, 70, 110) if not THOROUGH else (40, 70, 110, 180, 300)):
        rec.case(cls, f"{storage} {tokenizer} {list(zip(bases, cs))}", lambda: record(
            [storage], tokenizer, 0, list(zip(bases, cs)), {"gets"}, sample=10))
    for k, (n, shape) in enumerate(((700, "linear"), (400, "branches"), (300, "linear"))):
        n *= 1 if not THOROUGH else 3
        bases = histories.shapes(r, n, shape)
        cs = [b"%d\n" % (j % 50) * (j % 9) + b"x\n" for j in range(n)]
        steps = list(zip(bases, cs))
        rec.case("very long", f"{shape} {n}", lambda: record(
            [STORAGE[k % 2]], "null", 0, [steps[i : i + n // 4] for i in range(0, n, n // 4)],
            {"gets"}, sample=60))
    # contents of the sizes at which the storage format changes
    for n in gen.sizes(3000 if not THOROUGH else 20000, 200) + [67823, 67900]:
        lines = n > 1500 or n % 2 == 0
        first = histories.version_of_size(r, n, lines)
        cs = [first]
        for _ in range(4):
            s = bytearray(cs[-1])
            j = r.randint(0, len(s))
            s[j : j + r.randint(0, 40)] = histories.version_of_size(r, r.choice([0, 24, 300]), lines)
            cs.append(bytes(s))
        cs.append(first[: len(first) // 2])
        cs.append(first + first[:100] if lines else first)
        bases = [0, 1, 2, 3, 4, 2, 6]
        tokenizer = "line" if lines else "null"
        rec.case("big contents", f"{tokenizer} about {n} bytes", lambda: record(
            [STORAGE[n % 2]], tokenizer, 0, list(zip(bases, cs)), {"gets"}))
    for n in (300, 1500) if not THOROUGH else (300, 1500, 4000):  # many changes in one patch
        a = [b"%d\n" % k for k in range(n)]
        b = [x if k % 2 else b"other " + x for k, x in enumerate(a)]
        c = [x for k, x in enumerate(a) if k % 2]
        for k, storage in enumerate(STORAGE):
            rec.case("many changes", f"{n} lines", lambda: record(
                [storage], "line", 0, [(0, b"".join(a)), (1, b"".join(b)), (2, b"".join(c)),
                                       (3, b"".join(a)), (1, b"".join(c))], {"gets"}))
    # many tokens in one version: positions beyond 2287 and 67823 in a patch
    for n in (2400, 70000):
        a = b"".join(b"%d\n" % k for k in range(n))
        b = a + b"end\n"
        c = b"start\n" + b.replace(b"\n77\n", b"\nseventy-seven\n")
        rec.case("many lines", f"{n} lines", lambda: record(
            ["memory"], "line", 0, [(0, a), (1, b), (2, c), (1, b""), (0, a)], {"gets"}))


def infos(rec):
    r = rng("infos")
    for k, (cls, storage, tokenizer, bases, cs) in enumerate(jobs(r, budget=0.8)):
        kinds = ["memory", "one connection" if k % 4 else "many connections"]
        # both kinds of storage need tags that both can take
        rec.case(cls, f"{tokenizer} {list(zip(bases, cs))}", lambda: record(
            kinds, tokenizer, 0, list(zip(bases, cs)), {"has", "infos"}, salt=k))
        rec.case(cls, f"{storage} {tokenizer} {list(zip(bases, cs))}", lambda: record(
            [storage], tokenizer, k, list(zip(bases, cs)), {"has", "infos"}, salt=k))
    for cls, storage, tokenizer, bases, cs in long_jobs(
            r, (40, 80) if not THOROUGH else (40, 80, 150, 300)):
        rec.case(cls, f"{storage} {tokenizer} {list(zip(bases, cs))}", lambda: record(
            [storage], tokenizer, 0, list(zip(bases, cs)), {"has", "infos"}, sample=10))


def layout(rec):
    r = rng("layout")
    observe = {"paths", "storage"}
    for k, (cls, storage, tokenizer, bases, cs) in enumerate(jobs(r, budget=0.6)):
        rec.case(cls, f"{storage} {tokenizer} {list(zip(bases, cs))}", lambda: record(
            [storage], tokenizer, k, list(zip(bases, cs)), observe, salt=k))
    for n in (30, 60, 90, 120, 200) if not THOROUGH else (100, 200, 399):
        for storage in STORAGE[:2]:
            bases = histories.shapes(r, n, "linear")
            rec.case("long linear", f"{storage} {n}", lambda: record(
                [storage], "null", 0, [(b, b"%d" % (b % 7)) for b in bases], observe))
    # very long ones, looked at now and then
    for n, storage in ((1100, 0), (500, 1)) if not THOROUGH else ((2500, 0), (1100, 1)):
        steps = [(b, b"%d" % (b % 7)) for b in range(n)]
        cuts = sorted({n // 3, n // 2, n - 40, n - 1, n})
        rec.case("very long linear", f"{STORAGE[storage]} {n}", lambda: record(
            [STORAGE[storage]], "null", 0, [steps[i:j] for i, j in zip([0, *cuts], cuts)],
            observe, sample=150))
    # contents of all sizes
    for n in gen.sizes(3000 if not THOROUGH else 20000, 60) + [gen.huge_size(), 67900]:
        lines = n > 1500 or n % 2 == 0
        cs = [histories.version_of_size(r, n, lines)]
        for k in range(3 + n % 5):
            s = bytearray(cs[-1] if k % 3 else cs[0])
            s[r.randint(0, len(s)) :] = b"%d\n" % k
            cs.append(bytes(s) if k % 2 else cs[0] + b"%d\n" % k)
        rec.case("big contents", f"about {n} bytes", lambda: record(
            [STORAGE[n % 2]], "line" if lines else "null", 0, list(enumerate(cs)), observe))
    for n in (50, 90) if not THOROUGH else (90, 200, 300):
        for shape in ("branches", "restarts", "random", "comb", "star"):
            bases = histories.shapes(r, n, shape)
            rec.case("long, branching", f"{shape} {bases}", lambda: record(
                [STORAGE[n % 4 // 2]], "null", 0, [(b, b"%d" % (b % 7)) for b in bases],
                observe, sample=20))


# --------------------------------------------------------------- rejected additions
def bad_steps(tokenizer):
    """What must be rejected; functions of a Run."""
    steps = []

    def used(run):
        v = run.r.randint(1, run.count)
        return run.reject(run.tag(v), run.r.choice([b"zzz\n", b""]),
                          *run.r.choice([(), (None,), (run.tag(run.r.randint(1, run.count)),)]))

    def same(run):
        v = run.r.randint(1, run.count)
        return run.reject(run.tag(v), b"zzz\n", run.tag(v))

    def unknown(run):
        return run.reject(run.tags[run.count], b"zzz\n", run.absent)

    def itself(run):
        t = run.tags[run.count]
        return run.reject(t, b"zzz\n", t)

    steps = [used, unknown, itself, same]
    if tokenizer in ("char", "symbol"):
        def unreadable(run):
            return run.reject(run.tags[run.count], texts.not_utf8(run.r),
                              *run.r.choice([(), (None,), (run.tag(run.r.randint(1, run.count)),)]))

        def unreadable_on_last(run):
            return run.reject(run.tags[run.count], texts.not_utf8(run.r), run.tag(run.count))

        steps += [unreadable, unreadable_on_last, unreadable]

    def nothing(run):
        return run.reject(run.tags[run.count], 5, run.tag(run.count))

    if tokenizer != "null":
        steps.append(nothing)
    return steps


def rejected(rec):
    r = rng("rejected")
    observe = {"gets", "has", "infos", "paths"}

    def one(cls, k, storage, tokenizer, bases, cs, rejects):
        history, plain = [], list(zip(bases, cs))
        for j, step in enumerate(plain):
            history.append(step)
            for bad in rejects.get(j, ()):
                history.append(bad)

        def go():
            a = record([storage], tokenizer, k, history, observe, salt=k)
            # the twin without the rejected additions
            b = record([storage], tokenizer, k, plain, observe, salt=k)
            last = b["runs"][0][-1]
            return {"runs": a["runs"], "size": a["size"],
                    "twins": [[last["gets"], last["has"], last["infos"], last["paths"]]]}

        names = {j: [b.__name__ for b in bs] for j, bs in rejects.items()}
        rec.case(cls, f"{storage} {tokenizer} {plain} rejected behind: {names}", go)

    for k, bases in enumerate(b for b in histories.from_specification() if len(b) <= 5):
        tokenizer = TOKENIZERS[k % 4]
        cs = histories.contents(r, bases, ["tiny", "documents"][k % 2], tokenizer)
        bad = bad_steps(tokenizer)
        for b in bad:
            j = r.randrange(len(bases))
            one("histories of the specification", k, STORAGE[(k % 3 == 0)], tokenizer, bases, cs,
                {j: [b]})
        one("histories of the specification, rejects everywhere", k, STORAGE[(k % 3 == 1)],
            tokenizer, bases, cs, {j: bad for j in range(len(bases))})
    for k in range(200 if not THOROUGH else 4000):
        tokenizer = TOKENIZERS[k % 4]
        bases = histories.shapes(r, r.choice([5, 8, 12]), SHAPES[k % len(SHAPES)])
        cs = histories.contents(r, bases, r.choice(["tiny", "documents", "binary"]), tokenizer)
        bad = bad_steps(tokenizer)
        one("random", k, STORAGE[k % 3], tokenizer, bases, cs,
            {r.randrange(len(bases)): r.sample(bad, r.randint(1, 3)) for _ in range(3)})


if __name__ == "__main__":
    main({"gets": gets, "infos": infos, "layout": layout, "rejected": rejected})
