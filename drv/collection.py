"""Records operations on database collections."""
from common import main, THOROUGH, Malformed
import gen, histories
from gen import rng
from store import DB_TAGS, one_connection, many_connections, clean_up

from gaspra.db_collections import DBCollection
from gaspra.db_tree import DBTree

NAMES = ["heads", "diffs", "heads2", "x", "xx", "diffs_old"]
DATA = [b"", b"\x00", b"a", b"A", b"a\n", b"\xff\xfe", "\u00e9".encode(), b"None", b"0", b"x" * 5000,
        bytes(range(256)), b"'", b"a\x00b", b"y" * 70001, b"z" * 1_100_003]


class Session:
    def __init__(self, connect, tags, names):
        self.connect, self.tags, self.names = connect, tags, names
        self.collections = {}
        self.tag_numbers = {t: k + 1 for k, t in enumerate(tags)}
        self.data_numbers = {}

    def tag(self, k):
        return self.tags[k - 1]

    def data(self, k):
        d = DATA[k - 1] if k <= len(DATA) else b"data %d" % k
        self.data_numbers[d] = k
        return d

    def tag_of(self, t):
        return self.tag_numbers.get(t, 0) if type(t) is str else -1

    def data_of(self, d):
        return self.data_numbers.get(d, 0) if type(d) is bytes else -1

    def pairs(self, c):
        return [self.seen(c, m) for m in self.collections[c]]

    def seen(self, c, m):
        return [c, [[self.tag_of(t), self.data_of(m[t])] for t in m], len(m)]

    def do(self, o):
        op, c = o["op"], o["c"]
        if op == "create":
            self.collections.setdefault(c, []).append(
                DBCollection(self.names[c - 1], self.connect))
            return []
        # one of the objects that were made for it
        m = self.collections[c][o.get("h", -1) % len(self.collections[c])]
        t = self.tag(o["tag"]) if o.get("tag") else None
        if op == "set":
            m[t] = self.data(o["data"])
        elif op == "get":
            return [self.data_of(m[t])]
        elif op == "find":
            d = m.get(t)
            return [] if d is None else [self.data_of(d)]
        elif op == "in":
            return [1 if t in m else 0]
        elif op == "len":
            return [len(m)]
        elif op == "iter":
            return [self.tag_of(x) for x in m]
        elif op == "items":
            return [[self.tag_of(x), self.data_of(y)] for x, y in m.items()]
        elif op == "del":
            del m[t]
        elif op == "pop":
            return [self.data_of(m.pop(t))]
        elif op == "setdefault":
            return [self.data_of(m.setdefault(t, self.data(o["data"])))]
        elif op == "update":
            m.update({self.tag(a): self.data(b) for a, b in o["pairs"]})
        elif op == "clear":
            m.clear()
        else:
            raise Malformed(f"unknown operation {op}")
        return []


def record(ops, many, tags, names, look_every=1, tree=False):
    connect = many_connections() if many else one_connection()
    session = Session(connect, tags, names)
    out = []
    try:
        other = DBTree(connect) if tree else None
        for k, o in enumerate(ops):
            o = {"tag": 0, "data": 0, "pairs": [], **o, "error": False, "answer": []}
            try:
                o["answer"] = session.do(o)
            except KeyError:
                o["error"] = True
            if other is not None:
                other.add(f"t{k}")
                if k:
                    other.change_parent(f"t{k - 1}", f"t{k}")
            o["seen"] = ([p for c in session.collections for p in session.pairs(c)]
                         if k % look_every == 0 or k == len(ops) - 1 else [])
            out.append(o)
    finally:
        clean_up(connect)
    return {"names": len(names), "ops": out}


OPS = ["set"] * 6 + ["get"] * 3 + ["find", "find", "in", "in", "len", "iter", "items", "del", "del",
                                   "pop", "setdefault", "update"]


def random_ops(r, n, names, tags, data):
    ops = [{"op": "create", "c": c + 1} for c in range(names)]
    for _ in range(n):
        o = {"op": r.choice(OPS), "c": r.randint(1, names), "tag": r.randint(1, tags),
             "data": r.randint(1, data), "h": r.randint(0, 3)}
        if r.random() < 0.02:
            o["op"] = r.choice(["clear", "create"])
        if o["op"] == "update":
            ks = r.sample(range(1, tags + 1), min(tags, r.randint(0, 3)))
            o["pairs"] = [[t, r.randint(1, data)] for t in ks]
        ops.append(o)
    return ops


def operations(rec):
    r = rng("collection")
    for k, ops in enumerate(histories.from_specification()):
        tags = DB_TAGS[1][k % 20 :][:2] if k % 2 else ["a", "b"]
        rec.case("operations of the specification", f"{tags} {ops}", lambda: record(
            ops, k % 6 == 5, tags, ["first", "second"]))
    for k in range(200 if not THOROUGH else 4000):
        names = r.sample(NAMES, r.randint(1, 3))
        tags = list(DB_TAGS[k % 2][: r.choice([2, 5, 30])])
        ops = random_ops(r, r.choice([20, 60]), len(names), len(tags), 20)
        rec.case("random", f"{names} {tags} {ops}", lambda: record(
            ops, k % 3 == 2, tags, names, look_every=3, tree=k % 4 == 1))
        # several objects for every collection
        again = [o for o in ops[: len(names)] for _ in range(r.randint(1, 3))]
        r.shuffle(again)
        rec.case("several objects", f"{names} {tags} {again + ops}", lambda: record(
            again + ops[len(names):], k % 3 == 1, tags, names, look_every=r.choice([1, 5, 50])))
    for k, n in enumerate(gen.sizes(1100 if not THOROUGH else 5000, 60)):
        tags = [f"tag {k}" for k in range(n)]
        if k % 3:   # some that differ little
            few = [t for k in range(n // 9) for t in (f"Tag {k}", f"tag {k} ", f" tag {k}", f"tag 0{k}")]
            tags[n // 2 :] = ([*DB_TAGS[1][:20], *few] + tags)[: n - n // 2]
            tags = list(dict.fromkeys(tags))
            n = len(tags)
            r.shuffle(tags)
        ops = [{"op": "create", "c": 1}] + [
            {"op": "set", "c": 1, "tag": k + 1, "data": k + 1} for k in range(n)]
        ops += [{"op": "len", "c": 1}] + random_ops(r, 30, 1, n, n)[1:] + [
            {"op": o, "c": 1} for o in ("len", "iter", "items")]
        rec.case("many tags", f"{n} tags", lambda: record(ops, False, tags, ["many"], look_every=n))


if __name__ == "__main__":
    main({"operations": operations})
