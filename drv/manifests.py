"""Records histories of manifests and their items."""
import json
from collections.abc import Mapping
from common import main, THOROUGH, Malformed
import histories, texts
from gen import rng
from store import Ids, memory_store, database_store, one_connection, many_connections, clean_up
from store import DB_TAGS

from gaspra.manifest import add_manifest, get_manifest

NAMES = ["a", "b", "src/a.py", "", " ", "A", '"', "\\", "\n", "a\nb", ",\n", ":", "\u00e9",
         "e\u0301", "\U0001f600", "\u2028", "null", "0", "a\":\"b", "{}", "\x00", "\x7f", "'",
         "\ud7ff", "a\r\n", "\t", "caf\udce9.txt", "\ud800", "\udfff/"] + [f"dir/{k}.txt" for k in range(40)]

# Names that are nearly the same as the one before.
ALIKE = ["a", "A", " a", "a ", "./a", "a/", "a.txt", "A.TXT", "a.TXT", "b/a.txt", "b\\a.txt", "b//a.txt",
         "\u00e9", "e\u0301", "e", "stra\u00dfe", "strasse", "STRASSE", "\ufb01", "fi", "\u0130", "i",
         "0", "00", "0.0", "", " ", "\t", "null", "None"]


class Fixed:
    """Always gives numbers for names, tags and contents."""

    def __init__(self, names, tags, contents):
        self.names, self.tags, self.contents = names, tags, contents
        self.number = {n: k + 1 for k, n in enumerate(names)}
        self.item = {t: k + 1 for k, t in enumerate(tags)}


def record(store, world, events, r, everything):
    """events: (base, [(name, item)...]), numbers from 1."""
    ids = Ids()
    mtags = [f"manifest {k}" for k in range(len(events))] if r.random() < 0.5 else [
        "M" * (k + 1) for k in range(len(events))]
    stored, out = [], []
    is_item = {}
    for m, (base, entries) in enumerate(events):
        manifest = {world.names[n - 1]: world.tags[i - 1] for n, i in entries}
        fresh = sorted({i for _, i in entries} - set(stored))
        given = {world.tags[i - 1]: world.contents[i - 1] for i in fresh}
        if r.random() < 0.4:  # also of what is stored already, and of what is not named
            for i in r.sample(range(1, len(world.tags) + 1), min(len(world.tags), 5)):
                given.setdefault(world.tags[i - 1], r.choice(
                    [world.contents[i - 1], r.choice(world.contents), b"something else\n"]))
        copy = dict(manifest)
        event = {"base": base, "entries": [list(e) for e in entries],
                 "new": [[i, ids.new(world.contents[i - 1])] for i in fresh], "failed": False,
                 "reads": [], "gets": [], "bases": [], "mbases": []}
        out.append(event)
        try:
            add_manifest(mtags[m], manifest, store, given, mtags[base - 1] if base else None)
        except Exception as e:
            event["failed"] = True
            event["message"] = f"{type(e).__name__}: {e}"[:200]
            return {"events": out}
        if manifest != copy:
            raise Malformed("the manifest was changed")
        stored += fresh
        last = m == len(events) - 1
        some = (lambda x: list(x)) if last or everything else (
            lambda x: r.sample(list(x), min(len(x), 4)))
        for j in some(range(m + 1)):
            got = get_manifest(store, mtags[j])
            if not isinstance(got, Mapping):
                raise Malformed(f"manifest {got!r}")
            event["reads"].append([j + 1, [[world.number.get(n, -1), world.item.get(t, -1)]
                                           for n, t in got.items()]])
            b = store.version_info(mtags[j]).base_version
            event["mbases"].append([j + 1, 0 if b is None else mtags.index(b) + 1
                                    if b in mtags[: m + 1] else -1])
        for i in some(stored):
            tag = world.tags[i - 1]
            event["gets"].append([i, ids.known(store.get(tag))])
            b = store.version_info(tag).base_version
            event["bases"].append([i, 0 if b is None else world.item.get(b, -1)])
    return {"events": out}


def stores(k):
    tokenizer = ["null", "line", "char", "symbol"][k % 4]
    c = k // 4 % 6
    if c < 3:
        return tokenizer, "memory", None
    if c < 5:
        return tokenizer, "database", one_connection()
    return tokenizer, "database file", many_connections()


def run(k, world, events, r, everything=False):
    tokenizer, kind, connect = stores(k)
    store = memory_store(tokenizer) if connect is None else database_store(tokenizer, connect)
    try:
        return record(store, world, events, r, everything)
    finally:
        clean_up(connect)


def random_events(r, n, names, shape):
    """Histories that add, drop, change, revert and share items."""
    bases = histories.shapes(r, n, shape)
    events, items = [], 0
    for base in bases:
        entries = dict(events[base - 1][1]) if base else {}
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            name = r.randint(1, names)
            c = r.random()
            if c < 0.2:
                entries.pop(name, None)
            elif c < 0.5 and items:
                entries[name] = r.randint(1, items)
            else:
                items += 1
                entries[name] = items
                while r.random() < 0.15:
                    entries[r.randint(1, names)] = items
        if r.random() < 0.06:
            entries = {}
        if r.random() < 0.1:
            entries = dict(sorted(entries.items(), reverse=True))
        # Items that were not named after all have no number.
        events.append((base, list(entries.items())))
    used = {}
    for _, entries in events:
        for _, i in entries:
            used.setdefault(i, len(used) + 1)
    return [(b, [(n, used[i]) for n, i in e]) for b, e in events], len(used)


TAGS = [t for t in DB_TAGS[1] if not t.startswith("M")]


def world_for(r, names, items, tokenizer):
    tags = list(TAGS[:items]) if r.random() < 0.4 else [f"item {k}" for k in range(items)]
    if len(tags) < items:
        tags = [f"item {k}" for k in range(items)]
    r.shuffle(tags)
    pool = list(NAMES)
    r.shuffle(pool)
    if names <= len(ALIKE) and r.random() < 0.4:
        k = r.randint(0, len(ALIKE) - names)
        pool = ALIKE[k : k + names]
    pool = pool[:names] if r.random() < 0.6 else [f"path/{k}" for k in range(names)]
    style = r.choice(["tiny", "texts", "texts", "binary"])
    bases = [k and r.randint(0, k) for k in range(items)]
    return Fixed(pool, tags, histories.contents(r, bases, style, tokenizer))


def manifests(rec):
    r = rng("manifests")
    found = histories.from_specification()
    if not THOROUGH and len(found) > 1600:
        found = r.sample(found, 1600)
    for k, h in enumerate(found):
        events = [(e["base"], [tuple(x) for x in e["entries"]]) for e in h]
        used = max([i for _, e in events for _, i in e], default=0)
        rec.case("history of the specification", f"{stores(k)[:2]} {events}", lambda: run(
            k, world_for(rec.r, 2, used, stores(k)[0]), events, rec.r, True))
    for k in range(500 if not THOROUGH else 8000):
        n, names = r.choice([3, 6, 12]), r.choice([1, 2, 4, 10, 40])
        shape = r.choice(histories.SHAPES)
        events, items = random_events(r, n, names, shape)
        rec.case(shape, f"{stores(k)[:2]} {events}", lambda: run(
            k, world_for(rec.r, names, items, stores(k)[0]), events, rec.r))
    for k, n in enumerate((70, 300, 1100) if not THOROUGH else (70, 300, 1100, 5000)):
        # many names, of few items and of as many items
        few = [(m, m % 9 + 1) for m in range(1, n + 1)]
        every = [(m, 9 + m) for m in range(1, n + 1)]
        events = [(0, few), (1, few[:-1]), (2, few[: n // 2]), (1, few[::-1])] + (
            [(1, every), (5, every[: n // 2] + [(n, 9 + 1)])] if n < 500 else [])
        w = Fixed([f"path/{m}" for m in range(n)], [f"item {m}" for m in range(n + 9)],
                  [b"content %d\n" % m for m in range(n + 9)])
        rec.case("many names", f"{stores(k)[:2]} {n} names", lambda: run(k, w, events, rec.r))
    for k in range(4 if not THOROUGH else 40):
        events, items = random_events(r, 60, 20, "linear")
        rec.case("long history", f"{stores(k)[:2]} {events}", lambda: run(
            k, world_for(rec.r, 20, items, stores(k)[0]), events, rec.r))


# ------------------------------------------------------------------ failing additions
class Session:
    """Additions to a store, some of which fail."""

    def __init__(self, store, tokenizer, world, r):
        self.store, self.tokenizer, self.world, self.r = store, tokenizer, world, r
        self.ids, self.tags, self.stored, self.attempts = Ids(), [], [], 0
        self.events, self.last = [], None

    def call(self, tag, manifest, given, base):
        try:
            add_manifest(tag, manifest, self.store, given, base)
        except Exception as e:
            return f"{type(e).__name__}: {e}"[:200]
        return ""

    def step(self, base, entries, fail, at, tag=None):
        world, r = self.world, self.r
        # What has been numbered since may not have been stored.
        fresh = sorted({i for _, i in entries} - set(self.stored))
        manifest = {world.names[n - 1]: world.tags[i - 1] for n, i in entries}
        given = {world.tags[i - 1]: world.contents[i - 1] for i in fresh}
        if r.random() < 0.3:
            given.update({world.tags[i - 1]: world.contents[i - 1] for i in self.stored})
        self.attempts += 1
        tag = tag or f"manifest {self.attempts}"
        base_tag = self.tags[base - 1] if base else None
        offered = list(fresh)
        if fail == "unreadable" and self.tokenizer not in ("char", "symbol"):
            fail = "missing"
        if at and entries[at - 1][1] not in fresh:  # an attempt before has stored it
            return
        if fail == "missing":
            gone = entries[at - 1][1]
            given.pop(world.tags[gone - 1], None)
            offered.remove(gone)
        elif fail == "unreadable":
            gone = entries[at - 1][1]
            given[world.tags[gone - 1]] = texts.not_utf8(r)
            offered.remove(gone)
        elif fail == "used":
            tag = r.choice([*self.tags, *self.tags, *(world.tags[i - 1] for i in self.stored)])
            base_tag = r.choice([base_tag, tag]) if tag in self.tags else base_tag
            base = self.tags.index(base_tag) + 1 if base_tag is not None else 0
        elif fail == "itself":
            tag = world.tags[entries[at - 1][1] - 1]
        elif fail == "unknown":
            base_tag = r.choice([tag, "no such manifest"])
        elif fail == "nomanifest":
            some = [i for i in self.stored if not self.json(world.contents[i - 1])]
            if not some:
                return
            base_tag = world.tags[r.choice(some) - 1]
        why = self.call(tag, manifest, given, base_tag)
        event = {"base": base, "entries": [list(e) for e in entries], "fail": fail,
                 "failed": bool(why), "why": why,
                 "offered": [[i, self.ids.new(world.contents[i - 1])] for i in offered]}
        self.events.append(event)
        if not fail:
            self.tags.append(tag)
        event["found"] = [[i, self.ids.known(self.store.get(world.tags[i - 1]))]
                          for i in fresh if world.tags[i - 1] in self.store]
        event["gets"] = [[i, self.ids.known(self.store.get(world.tags[i - 1]))]
                         for i in fresh if world.tags[i - 1] not in self.store]
        self.stored += [i for i, _ in event["found"]]
        known = list(self.tags)
        if fail in ("", "used", "itself"):
            extra = []
        else:
            extra = [tag]
        event["there"] = [k + 1 for k, t in enumerate(known + extra) if t in self.store]
        event["reads"] = []
        for k, t in enumerate(known):
            got = get_manifest(self.store, t) if t in self.store else {}
            event["reads"].append([k + 1, [[world.number.get(n, -1), world.item.get(x, -1)]
                                           for n, x in got.items()]])
        event["items"], event["bases"] = [], []
        for i in self.stored:
            event["items"].append([i, self.ids.known(self.store.get(world.tags[i - 1]))])
            b = self.store.version_info(world.tags[i - 1]).base_version
            event["bases"].append([i, 0 if b is None else world.item.get(b, -1)])
        self.last = (base, entries, fail, tag)

    def retry(self):
        """What failed last again, with what was wrong corrected."""
        base, entries, fail, tag = self.last
        if fail:
            self.step(base, entries, "", 0,
                      tag if fail in ("missing", "unreadable", "unknown") else None)

    @staticmethod
    def json(content):
        try:
            json.loads(content)
        except ValueError:
            return False
        return True


def session(k, world, steps, r, retry):
    tokenizer, kind, connect = stores(k)
    store = memory_store(tokenizer) if connect is None else database_store(tokenizer, connect)
    s = Session(store, tokenizer, world, r)
    try:
        for x in steps:
            s.step(*x)
            if s.events and s.events[-1]["fail"] and (retry or x is steps[-1]):
                s.retry()
    finally:
        clean_up(connect)
    return {"events": s.events}


def with_failures(r, events, often):
    """Failing attempts before some of the additions."""
    out, stored = [], set()
    for k, (base, entries) in enumerate(events):
        while k and r.random() < often:
            kinds = ["used", "unknown", "nomanifest"]
            positions = {}
            for at, (_, i) in enumerate(entries):
                if i not in stored:
                    positions.setdefault(i, at + 1)
            kinds += ["missing", "unreadable", "itself"] * 2 if positions else []
            fail = r.choice(kinds)
            at = (r.choice(list(positions.values()))
                  if fail in ("missing", "unreadable", "itself") else 0)
            out.append((0 if fail in ("unknown", "nomanifest") else base, entries, fail, at))
            if r.random() < 0.5 or at:
                break
        out.append((base, entries, "", 0))
        stored |= {i for _, i in entries}
    return out


def failures(rec):
    r = rng("failures")
    found = [h for h in histories.from_specification() if any(e["fail"] for e in h)]
    if not THOROUGH and len(found) > 1500:
        found = r.sample(found, 1500)
    for k, h in enumerate(found):
        steps = [(e["base"], [tuple(x) for x in e["entries"]], e["fail"], e["at"]) for e in h]
        used = max([i for s in steps for _, i in s[1]], default=0)
        rec.case("history of the specification", f"{stores(k)[:2]} {steps}", lambda: session(
            k, world_for(rec.r, 2, used, stores(k)[0]), steps, rec.r, False))
    for k in range(300 if not THOROUGH else 5000):
        n, names = r.choice([3, 6, 10]), r.choice([1, 2, 4, 10])
        shape = r.choice(histories.SHAPES)
        events, items = random_events(r, n, names, shape)
        steps = with_failures(r, events, r.choice([0.3, 0.6]))
        rec.case(shape, f"{stores(k)[:2]} {steps}", lambda: session(
            k, world_for(rec.r, names, items, stores(k)[0]), steps, rec.r, False))


if __name__ == "__main__":
    main({"manifests": manifests, "failures": failures})
