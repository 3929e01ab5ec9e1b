"""Records the same history in the trees of memory and of databases."""
from common import main, THOROUGH
import gen, histories
from gen import rng
from histories import SHAPES
from store import DB_TAGS, MEMORY_TAGS, one_connection, many_connections, clean_up

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree
from gaspra.memory_tree import MemoryTree
from gaspra.versions import Versions


def by_hand(tree, tag, base):
    """What an addition to a store does with its tree."""
    if base is None:
        tree.add(tag, None)
        return
    split, path = tree.get_split(base)
    tree.add(tag, base)
    if split != base:
        tree.change_parent(split, tag)
    tree.change_parent(base, tag)


def run(kind, tags, bases, through_store, sample, r, looks=None):
    """looks: the numbers of additions after which to ask; None for all."""
    connect = None
    if kind == "memory":
        tree, absent = MemoryTree(), "no tag"
        store = Versions(tree=tree) if through_store else None
    else:
        connect = one_connection() if kind == "one connection" else many_connections()
        tree, absent = DBTree(connect), "no tag"
        store = Versions(head_version=DBCollection("heads", connect),
                         diffs=DBCollection("diffs", connect), tree=tree) if through_store else None
    number, events, waiting = {}, [], []
    try:
        for k, base in enumerate(bases):
            tag, base_tag = tags[k], tags[base - 1] if base else None
            event = {"op": "add", "base": base, "content": 1, "failed": False}
            if store:
                store.add(tag, b"x", base_tag)
            else:
                by_hand(tree, tag, base_tag)
            number[tag] = k + 1
            if looks:
                waiting.append(base)
                if k + 1 not in looks:
                    continue
                event = {"op": "adds", "added": waiting, "contents": [1] * len(waiting),
                         "failed": False}
                waiting = []
            vs = list(range(1, k + 2))
            if sample and len(vs) > sample:
                vs = sorted(set(r.sample(vs, sample)) | {1, k + 1})

            def numbered(path):
                return [number.get(t, 0) for t in path] if path else []

            def split(v):
                t, path = tree.get_split(tags[v - 1])
                return [v, number.get(t, 0), numbered(path)]

            event["has"] = [[v, 1 if tags[v - 1] in tree else 0] for v in vs] + [
                [0, 1 if absent in tree else 0]]
            event["paths"] = [{"v": v, "path": numbered(tree.path_to(tags[v - 1]))} for v in vs] + [
                {"v": 0, "path": numbered(tree.path_to(absent))}]
            event["splits"] = [split(v) for v in vs]
            event["bases"] = []
            for v in vs:
                b = tree.base_version(tags[v - 1])
                event["bases"].append([v, 0 if b is None else number.get(b, -1)])
            # None, and not just an empty path, for the absence of a path
            if tree.path_to(absent) is not None:
                event["has"].append([0, 1])
            events.append(event)
    finally:
        clean_up(connect)
    return events


def same(rec):
    r = rng("trees")

    def one(cls, k, bases, sample=None, looks=None):
        kinds = ["memory", "many connections" if k % 5 == 4 else "one connection"]
        tags = DB_TAGS[k % len(DB_TAGS)]
        rec.case(cls, f"{kinds} {'store' if k % 2 else 'tree'} {bases}", lambda: {
            "runs": [run(kind, tags, bases, k % 2, sample, rng("sample", k), looks) for kind in kinds]})

    k = 0
    for k, bases in enumerate(histories.from_specification()):
        one("histories of the specification", k, bases)
    for k in range(250 if not THOROUGH else 5000):
        one("random", k, histories.shapes(r, r.choice([8, 12, 20]), SHAPES[k % len(SHAPES)]))
    for n in (40, 70, 120) if not THOROUGH else (60, 120, 200, 350):
        for k, shape in enumerate(SHAPES):
            one("long", k, histories.shapes(r, n, shape), sample=12)
    for k, (n, shape) in enumerate((
            (2100, "linear"), (300, "linear"), (600, "branches"), (400, "random"),
            (500, "two lines"), (400, "restarts"))):
        n *= 1 if not THOROUGH else 2
        k = 10 * k + 2 + k % 2   # text tags of one kind or the other, never many connections
        one("very long", k, histories.shapes(r, n, shape), sample=40,
            looks={n // 7, n // 3, n // 3 + 1, n - n // 5, n - 1, n})


if __name__ == "__main__":
    main({"same": same})
