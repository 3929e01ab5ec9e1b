"""Records histories of several stores on the same storage."""
import multiprocessing, os, queue, threading
from common import main, THOROUGH
import histories
from gen import rng
from store import (DB_TAGS, MEMORY_TAGS, TOKENIZERS, Ids, Noting, NotingCollection, Run, clean_up,
                   many_connections, one_connection, thread_connections)
from tokens import MAKERS

from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions


class Remote:
    """A store in a process of its own, with the file that it shares."""

    def __init__(self, store):
        self.pipe, end = multiprocessing.Pipe()
        self.pid = os.fork()
        if self.pid:
            end.close()
            return
        try:
            self.pipe.close()
            while True:
                name, args = end.recv()
                if name is None:
                    break
                try:
                    end.send((getattr(store, name)(*args), ""))
                except Exception as e:
                    end.send((None, f"{type(e).__name__}: {e}"))
        finally:
            os._exit(0)

    def __call__(self, name, args):
        self.pipe.send((name, args))
        answer, why = self.pipe.recv()
        if why:
            raise RuntimeError(why)
        return answer

    def close(self):
        self.pipe.send((None, ()))
        self.pipe.close()
        os.waitpid(self.pid, 0)


class Local:
    """A store in this process; a new one now and then."""

    def __init__(self, make, anew):
        self.make, self.anew = make, anew
        self.store = make()

    def __call__(self, name, args):
        if self.anew():
            self.store = self.make()
        return getattr(self.store, name)(*args)

    def close(self):
        pass


class Elsewhere:
    """A store that is used in a thread of its own."""

    def __init__(self, store):
        self.store, self.todo, self.done = store, queue.Queue(), queue.Queue()
        self.thread = threading.Thread(target=self.work, daemon=True)
        self.thread.start()

    def work(self):
        while (job := self.todo.get()) is not None:
            name, args = job
            try:
                self.done.put((getattr(self.store, name)(*args), None))
            except Exception as e:
                self.done.put((None, e))

    def __call__(self, name, args):
        self.todo.put((name, args))
        answer, why = self.done.get()
        if why is not None:
            raise why
        return answer

    def close(self):
        self.todo.put(None)
        self.thread.join()


class Several:
    """Looks like one store; asks one of the clients."""

    def __init__(self, clients, r):
        self.clients, self.r = clients, r
        self.turn = None
        self.diffs = self.head_version = Noting()

    def ask(self, name, *args):
        k = self.turn if self.turn is not None else self.r.randrange(len(self.clients))
        return self.clients[k](name, args)

    def add(self, *args):
        self.ask("add", *args)

    def get(self, tag):
        return self.ask("get", tag)

    def __contains__(self, tag):
        return self.ask("__contains__", tag)

    def version_info(self, tag):
        return self.ask("version_info", tag)


def record(kind, tokenizer, tags_k, steps, r, count):
    """steps: (client, base, content), (client, -version, None) for a look at a version, or
    (client, None, None) for adding a version that is there already."""
    connect, make = None, None
    tags = MEMORY_TAGS[tags_k % len(MEMORY_TAGS)] if kind == "memory" else DB_TAGS[tags_k % 2]
    clients = []
    if kind == "memory":
        storage = {}, {}, MemoryTree()
    else:
        connect = (one_connection() if kind == "one connection" else thread_connections()
                   if kind == "threads" and tags_k % 2 else many_connections())
        storage = (NotingCollection("heads", connect), NotingCollection("diffs", connect),
                   DBTree(connect))

    def make():
        return Versions(*storage, tokenizer_factory=MAKERS[tokenizer])

    try:
        for _ in range(count):
            if kind == "processes":
                clients.append(Remote(make()))
            elif kind == "threads":
                clients.append(Elsewhere(clients[0].store if clients and r.random() < 0.5 else make()))
            else:
                clients.append(Local(make, lambda: r.random() < 0.1))
        several = Several(clients, r)
        run = Run(several, tags, ("no", "tag") if kind == "memory" else "no tag", Ids(), set(), None, r)

        def look(client, vs, kinds=("gets", "has", "infos")):
            several.turn = client
            event = {"op": "look"}
            if "gets" in kinds:
                event["gets"] = [[v, run.ids.known(several.get(tag(v)))] for v in vs]
            if "has" in kinds:
                event["has"] = [[v, 1 if tag(v) in several else 0] for v in vs]
            if "infos" in kinds:
                event["infos"] = [run.info(v) for v in vs]
            run.events.append({"gets": [], "has": [], "infos": [], **event})

        def tag(v):
            return run.tags[v - 1] if v else run.absent

        for client, base, content in steps:
            several.turn = client
            if base is None:
                v = r.randint(1, run.count)
                run.reject(run.tag(v), b"zzz\n", run.tag(r.randint(0, v) or v))
            elif base < 0:
                look(client, [-base], [r.choice(["gets", "has", "infos"])])
                continue
            elif not run.add(base, content):
                break
            some = r.sample(range(run.count + 3), min(3, run.count + 1))
            look(r.randrange(count), some, ["gets", "has", "infos"])
        every = list(range(run.count + 2))
        for client in range(count):
            look(client, every)
    finally:
        for c in clients:
            c.close()
        if connect:
            clean_up(connect)
    size = [0] * len(run.ids.table)
    for c, k in run.ids.table.items():
        size[k - 1] = len(c)
    for e in run.events:
        e.setdefault("failed", False)
        for x in ("gets", "has", "infos"):
            e.setdefault(x, [])
    return {"runs": [run.events], "size": size}


KINDS = ["memory", "processes", "threads", "one connection", "memory"]


def clients(rec):
    r = rng("clients")
    found = histories.from_specification()
    r.shuffle(found)
    for k, h in enumerate(found[: 1000 if not THOROUGH else 20000]):
        bases = [b for _, b in h if b >= 0]
        kind, tokenizer = KINDS[k % 5], TOKENIZERS[(k // 5) % 4]
        cs = iter(histories.contents(r, bases, r.choice(["tiny", "documents"]), tokenizer))
        steps = [(c - 1, b, next(cs) if b >= 0 else None) for c, b in h]
        rec.case("history of the specification", f"{kind} {tokenizer} {steps}",
                 lambda: record(kind, tokenizer, k, steps, rec.r, 2))
    for k in range(240 if not THOROUGH else 4000):
        kind, tokenizer = KINDS[k % 5], TOKENIZERS[(k // 5) % 4]
        shape = histories.SHAPES[k % len(histories.SHAPES)]
        bases = histories.shapes(r, r.choice([6, 10, 16]), shape)
        cs = histories.contents(r, bases, r.choice(["tiny", "documents", "binary"]), tokenizer)
        count, steps = r.choice([2, 3, 4]), []
        for n, (b, c) in enumerate(zip(bases, cs)):
            steps.append((r.randrange(count), b, c))
            if r.random() < 0.2:
                steps.append((r.randrange(count), None, None))
            while r.random() < 0.4:
                steps.append((r.randrange(count), -r.randint(1, n + 2), None))
        rec.case(shape, f"{kind} {tokenizer} {count} stores {steps}",
                 lambda: record(kind, tokenizer, k, steps, rec.r, count))


if __name__ == "__main__":
    main({"clients": clients})
