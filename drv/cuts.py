"""Records additions to stores that are cut short."""
import os, re, shutil, sqlite3
from common import main, THOROUGH, SHARD
import histories
from gen import rng
from store import DB_TAGS, Ids, TOKENIZERS
from tokens import MAKERS

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions


class Cut(Exception):
    """What the failing storage raises."""


class Countdown:
    """Lets so many operations happen; the next one fails before or behind its effect."""

    def __init__(self):
        self.left = None

    def arm(self, left, behind):
        self.left, self.behind = left, behind

    def __call__(self, operation, *args):
        if self.left is None:
            return operation(*args)
        if self.left == 0:
            if self.behind:
                self.left = None
                operation(*args)
            self.left = None
            raise Cut()
        self.left -= 1
        return operation(*args)


class FailingDict(dict):
    def __init__(self, countdown):
        self.countdown = countdown

    def __setitem__(self, *a):
        self.countdown(super().__setitem__, *a)

    def __delitem__(self, *a):
        self.countdown(super().__delitem__, *a)

    def pop(self, *a):
        return self.countdown(super().pop, *a)

    def update(self, *a):
        self.countdown(super().update, *a)

    def setdefault(self, *a):
        return self.countdown(super().setdefault, *a)


class FailingTree(MemoryTree):
    countdown = None

    def add(self, *a, **kw):
        self.countdown(lambda: MemoryTree.add(self, *a, **kw))

    def change_parent(self, *a, **kw):
        self.countdown(lambda: MemoryTree.change_parent(self, *a, **kw))


class Mappings:
    """Storage in memory; operations on it fail."""

    def __init__(self, tokenizer):
        self.countdown = Countdown()
        tree = FailingTree()
        tree.countdown = self.countdown
        self.store = Versions(head_version=FailingDict(self.countdown),
                              diffs=FailingDict(self.countdown), tree=tree,
                              tokenizer_factory=MAKERS[tokenizer])

    def cut(self, k, add):
        """Whether the addition failed, with what happens behind the k-th operation."""
        self.countdown.arm(k // 2, k % 2)
        try:
            add()
            return False
        except Cut:
            return True
        finally:
            self.countdown.left = None

    def save(self):
        pass

    def restored(self):
        """Whether it is as it was when it was saved."""
        return False

    def close(self):
        pass


class Database:
    """A database of one connection, in which statements are interrupted: all from some point
    on, or a few of them."""

    def __init__(self, tokenizer):
        connection = self.connection = sqlite3.connect(":memory:")
        self.store = database(tokenizer, lambda: connection)

    def cut(self, k, add):
        left = [k * 40, (1000, 1, 2, 3, 5)[k % 5]]

        def handler():
            left[0] -= 1
            if left[0] < 0 < left[1]:
                left[1] -= 1
                return True
            return False

        self.connection.set_progress_handler(handler, 1)
        try:
            add()
            return False
        except sqlite3.OperationalError:
            return True
        finally:
            self.connection.set_progress_handler(None, 1)

    def save(self):
        self.saved = sqlite3.connect(":memory:")
        self.connection.backup(self.saved)

    def restored(self):
        self.saved.backup(self.connection)
        return True

    def close(self):
        self.connection.close()


class Refusing(sqlite3.Connection):
    """Runs no more statements that write to a table, after so many of them."""
    table, left = None, 0

    def check(self, sql):
        if self.table is not None and re.match(
                rf"(?is)\s*(WITH\b.*)?\b(INSERT|UPDATE|DELETE|REPLACE)\b.*\b{self.table}\b", sql):
            self.left -= 1
            if self.left < 0:
                raise sqlite3.OperationalError("database or disk is full")

    def cursor(self, factory=None):
        return super().cursor(RefusingCursor)

    def execute(self, sql, *a):
        self.check(sql)
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        self.check(sql)
        return super().executemany(sql, *a)


class RefusingCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        self.connection.check(sql)
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        self.connection.check(sql)
        return super().executemany(sql, *a)


class Full(Database):
    """A database of one connection, in which one table is full."""

    def __init__(self, tokenizer):
        connection = self.connection = sqlite3.connect(":memory:", factory=Refusing)
        self.store = database(tokenizer, lambda: connection)

    def cut(self, k, add):
        c = self.connection
        failed = False
        c.table, c.left = ("diffs", "heads", "graph")[k % 3], k // 3
        try:
            add()
        except sqlite3.OperationalError:
            failed = True
        c.table = None
        return failed

    def goes_on(self, failed, k):
        """The tables are full at different points."""
        return k < 60


class File:
    """A database in a file; the process that adds to it is killed."""

    def __init__(self, tokenizer):
        self.path = os.path.join(os.getcwd(), f"cuts-{os.getpid()}-{SHARD}.db")
        self.left = None
        self.close()
        self.store = database(tokenizer, self.connect)

    def connect(self):
        connection = sqlite3.connect(self.path)
        connection.execute("PRAGMA synchronous = OFF")
        if self.left is not None:
            connection.set_trace_callback(self.statement)
        return connection

    def statement(self, sql):
        if sql.lstrip()[:6].upper() in ("SELECT", "PRAGMA") or sql.lstrip()[:4].upper() == "WITH":
            return
        if self.left == 0:
            os._exit(77)
        self.left -= 1

    def cut(self, k, add):
        pid = os.fork()
        if not pid:
            try:
                self.left = k
                add()
                os._exit(0)
            finally:
                os._exit(1)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        if code == 1:
            raise RuntimeError("the addition failed by itself")
        return code != 0

    def save(self):
        shutil.copyfile(self.path, self.path + "-saved")

    def restored(self):
        for suffix in ("-journal", "-wal", "-shm"):
            if os.path.exists(self.path + suffix):
                os.unlink(self.path + suffix)
        shutil.copyfile(self.path + "-saved", self.path)
        return True

    def close(self):
        for suffix in ("", "-saved", "-journal", "-wal", "-shm"):
            if os.path.exists(self.path + suffix):
                os.unlink(self.path + suffix)


def database(tokenizer, connect):
    return Versions(head_version=DBCollection("heads", connect),
                    diffs=DBCollection("diffs", connect), tree=DBTree(connect),
                    tokenizer_factory=MAKERS[tokenizer])


KINDS = {"memory": Mappings, "database": Database, "killed process": File, "full": Full}


def record(kind, tokenizer, steps, tags, points):
    """steps: (base, content); the last one is cut short at each of the points."""
    ids = Ids()
    h = [{"base": b, "content": ids.new(c)} for b, c in steps]
    n = len(steps)

    def tag(v):
        return tags[v - 1] if v else None

    def built(count):
        place = KINDS[kind](tokenizer)
        for k, (b, c) in enumerate(steps[:count]):
            place.store.add(tag(k + 1), c, tag(b))
        return place

    def paths(store):
        number = {tag(v): v for v in range(1, n + 1)}
        return [[number[t] for t in store.tree.path_to(tag(v))] for v in range(1, n)]

    def get(store, v):
        try:
            return ids.known(store.get(tag(v)))
        except Exception:
            return -2

    def add_last(place):
        place.store.add(tag(n), steps[-1][1], tag(steps[-1][0]))

    place = built(n - 1)
    try:
        place.save()
        before = paths(place.store)
        add_last(place)
        after = paths(place.store)
        cuts, k, failed = [], 0, True
        goes_on = getattr(place, "goes_on", lambda failed, k: failed)
        while goes_on(failed, k) and len(cuts) < 200:
            if not place.restored():
                place = built(n - 1)
            failed = place.cut(k, lambda: add_last(place))
            cuts.append({"at": k, "failed": failed, "gets": [
                [v, get(place.store, v)] for v in range(1, n if failed else n + 1)]})
            k = points(k)
    finally:
        place.close()
    return {"h": h, "before": before, "after": after, "cuts": cuts}


def cuts(rec):
    r = rng("cuts")
    found = histories.from_specification()
    r.shuffle(found)
    kinds = list(KINDS)
    for k, bases in enumerate(found[: 700 if not THOROUGH else 20000]):
        kind, tokenizer = kinds[(0, 1, 2, 3, 1)[k % 5]], TOKENIZERS[(k // 5) % 4]
        cs = histories.contents(r, bases, r.choice(["tiny", "documents"]), tokenizer)
        steps = list(zip(bases, cs))
        rec.case("history of the specification", f"{kind} {tokenizer} {steps}",
                 lambda: record(kind, tokenizer, steps, DB_TAGS[k % 2], every(kind, rec.r)))
    for k in range(140 if not THOROUGH else 2000):
        kind, tokenizer = kinds[(0, 1, 2, 3, 1)[k % 5]], TOKENIZERS[(k // 5) % 4]
        shape = histories.SHAPES[k % len(histories.SHAPES)]
        bases = histories.shapes(r, r.choice([7, 10, 14]), shape)
        cs = histories.contents(r, bases, r.choice(["tiny", "documents", "binary"]), tokenizer)
        steps = list(zip(bases, cs))
        rec.case(shape, f"{kind} {tokenizer} {steps}",
                 lambda: record(kind, tokenizer, steps, DB_TAGS[k % 2], every(kind, rec.r)))


def every(kind, r):
    if kind == "database":
        return lambda k: k + r.choice([1, 1, 2, 4])
    return lambda k: k + 1


if __name__ == "__main__":
    main({"cuts": cuts})
