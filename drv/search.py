"""Records searches: longest common runs, substring search, the automaton."""
from common import main, THOROUGH, Malformed
import gen
from gen import KIND_NAMES, concrete, fits, rng, up, Decoder

from gaspra import suffix_automaton as sa
from gaspra import wrappers
from gaspra import multiple_strings


def number(x):
    if type(x) is not int or not -(2**30) < x < 2**30:
        raise Malformed(f"{x!r:.100} is no position")
    return x


def pick_kind(r, k, *sequences):
    kind = KIND_NAMES[k % len(KIND_NAMES)] if r is None else r.choice(KIND_NAMES)
    return kind if fits(kind, *sequences) else "ints"


def entry_points(a, b, way):
    if way == 0:
        return wrappers.find_lcs(a, b)
    if way == 1:
        return sa.find_lcs(sa.build(a), b)
    if way == 2:  # an automaton that was used before
        root = sa.build(a)
        sa.find_lcs(root, a)
        list(sa.find_substring_all(root, b[:1]))
        return sa.find_lcs(root, b)
    return sa.find_lcs(sa.build(iter(a), reverse_links=False, mark_terminals=False), b)


def lcs(rec):
    def one(cls, a, b, kind, way):
        def run():
            pa, pb, n = entry_points(concrete(kind, a), concrete(kind, b), way)
            return {"a": up(a), "b": up(b), "pa": number(pa), "pb": number(pb), "n": number(n)}

        rec.case(cls, f"{kind} way={way} {a} {b}", run)

    # Every short pair, on alternating kinds and entry points.
    for k, (cls, a, b) in enumerate(gen.pairs(
        exhaustive=((2, 6), (3, 3)) if not THOROUGH else ((2, 7), (3, 4)),
        count=2500 if not THOROUGH else 30000,
        longest=30,
    )):
        one(cls, a, b, pick_kind(None, k, a, b), k % 4)
    for k, (cls, a, b) in enumerate(gen.big_pairs(600 if not THOROUGH else 3000)):
        one(cls, a, b, pick_kind(None, k, a, b), k % 4)
    for k, (cls, a, b) in enumerate(gen.shaped_pairs(1030 if not THOROUGH else 2000)):
        one(cls, a, b, pick_kind(None, k, a, b), k % 4)
    for k, (cls, a, b) in enumerate(gen.huge_pairs()):
        one(cls, a, b, HUGE_KINDS[k % 3], k % 4)


HUGE_KINDS = ["ints", "text", "strings"]


def nway(rec):
    def one(cls, ss, kind):
        def run():
            ps, n = multiple_strings.find_lcs(*(concrete(kind, s) for s in ss))
            return {"ss": [up(s) for s in ss], "ps": [number(p) for p in ps],
                    "n": [] if n is None else [number(n)]}

        rec.case(cls, f"{kind} {ss}", run)

    for kind in KIND_NAMES:
        one("no or one sequence", (), kind)
        for s in [(), (0,), (0, 0), (0, 1, 0), (1, 2, 3)]:
            one("no or one sequence", (s,), kind)
    k = 0
    ws = list(gen.words(2, 3))
    for a in ws:
        for b in ws:
            for c in ws:
                one("all triples over 2 letters up to 3", (a, b, c),
                    pick_kind(None, k, a, b, c))
                k += 1
    for cls, a, b in gen.pairs(exhaustive=((2, 4), (3, 2)), count=0):
        one(cls, (a, b), pick_kind(None, k, a, b))
        k += 1
    r = rng("nway")
    for _ in range(1500 if not THOROUGH else 20000):
        m = r.choice([1, 2, 3, 3, 4, 5, 8, 12])
        letters = r.choice([1, 2, 3, 5, 30])
        common = gen.base(r, r.randint(0, 12), letters)
        ss = []
        for _ in range(m):
            if r.random() < 0.8:
                s = gen.edit(r, common, letters, r.randint(0, 4))
            else:
                s = gen.base(r, r.randint(0, 12), letters)
            ss.append(s)
        if r.random() < 0.2:
            ss.append(r.choice(ss))
        if r.random() < 0.05:
            ss.insert(r.randint(0, len(ss)), ())
        one("random", tuple(ss), pick_kind(r, 0, *ss))
    for n in gen.sizes(300 if not THOROUGH else 1100, 20):
        letters = r.choice([2, 4, 100])
        common = gen.base(r, n, letters)
        ss = [gen.edit(r, common, letters, r.randint(0, 5), longest=9) for _ in range(3)]
        one("big", tuple(ss), pick_kind(r, 0, *ss))
    for k, (cls, a, b) in enumerate(gen.huge_pairs()):
        if b and k % 2 == 0:
            n = len(a)
            some = [(a, b), (a, b, a[n // 3 :]), (a, a[: 2 * n // 3], b, b[: len(b) // 2])]
            one(cls, some[k // 2 % 3], HUGE_KINDS[k % 3])
    for m in [16, 31, 32, 33, 64, 65, 129, 257] + ([600, 1025] if THOROUGH else []):
        common = (1, 2, 1, 0, 3)
        ss = [gen.edit(r, common, 4, r.randint(0, 2)) for _ in range(m)]
        one("many sequences", tuple(ss), "ints")


def substring(rec):
    def one(cls, s, patterns, kind):
        def run():
            text = concrete(kind, s)
            root = sa.build(text)
            every, single = [], []
            for k, p in enumerate(patterns):
                q = concrete(kind, p)
                every.append([number(x) for x in (
                    wrappers.find_substring(text, q) if k % 3 == 0
                    else sa.find_substring_all(root, q))])
                x = sa.find_substring(root, q)
                single.append([] if x is None else [number(x)])
            return {"s": up(s), "ps": [up(p) for p in patterns],
                    "every": every, "single": single}

        rec.case(cls, f"{kind} {s} {patterns}", run)

    k = 0
    short = list(gen.words(2, 4))
    for s in gen.words(2, 7 if not THOROUGH else 10):
        patterns = short + [s, s + (0,)]
        one("all words over 2 letters", s, patterns, pick_kind(None, k, s))
        k += 1
    short = list(gen.words(3, 3))
    for s in gen.words(3, 5 if not THOROUGH else 7):
        one("all words over 3 letters", s, short, pick_kind(None, k, s))
        k += 1
    r = rng("substring")

    def some_patterns(s, n):
        out = [()]
        for _ in range(n):
            i = r.randint(0, len(s))
            p = s[i : i + r.choice([1, 2, 3, 5, 8, len(s)])]
            if r.random() < 0.4:
                p = gen.edit(r, p, max(s, default=0) + 2, 1, 2)
            out.append(p)
        return out

    for _ in range(600 if not THOROUGH else 10000):
        s = gen.base(r, r.randint(0, 60), r.choice([1, 2, 3, 5, 50]))
        one("random", s, ps := some_patterns(s, 8), pick_kind(r, 0, s, *ps))
    for n in gen.sizes(1030 if not THOROUGH else 4100, 20):
        s = gen.base(r, n, r.choice([1, 2, 3, 20]))
        one("big", s, ps := some_patterns(s, 6), pick_kind(r, 0, s, *ps))
    n = gen.huge_size()
    s = tuple(range(n))
    i, j = sorted(r.sample(range(n), 2))
    ps = [(), s, s[1:], s[:-1], s[i:j], s[i:], s[j : j + 1], s[j : j + 5], s[i : i + 2] + s[j : j + 1],
          s[j:] + s[:1], (n + 1,), s[i : i + 3] + (n + 1,), s + (0,)]
    for kind in HUGE_KINDS:
        one("huge", s, ps, kind)
    one("huge", s[:i] + s[-50:-30] + s[i:], [s[-50:-30], s[-40:-20], s[-45:-44], s[i:]], "ints")
    one("huge", (0, 1, 2) * (n // 3), [(0, 1, 2) * (n // 3), (1, 2) + (0, 1, 2) * (n // 3 - 1),
                                       (2, 1), (0,), (2, 0, 1, 2, 0, 1)], "text")


def walk(root, tokens):
    node = root
    for t in tokens:
        node = node.transitions.get(t)
        if node is None:
            return False
    return True


def recognised(root, tokens, word):
    found = sa.find_substring(root, tokens) is not None
    if hasattr(root, "transitions") and walk(root, tokens) != found:
        raise Malformed(f"find_substring() does not follow the transitions: {word}")
    return found


def automaton(rec):
    def one(cls, s, letters, longest, kind, way):
        def run():
            text = concrete(kind, s)
            if way == 0:
                root = sa.build(text)
            elif way == 1:
                root = sa.build(iter(text), empty=text[0:0])
            elif way == 2:
                root = sa.build((t for t in tuple(text)), reverse_links=False, empty=text[0:0])
            elif way == 3:
                root = sa.build(list(text), empty=text[0:0])
            elif way == 4:
                root = sa.build(t for t in tuple(text))
            else:
                root = sa.build(list(text))
            decode = Decoder(kind, range(letters + 1))
            suffixes = [decode(x) for x in sa.all_suffixes(root)]
            if way < 4 and any(type(x) is not type(text[0:0]) for x in sa.all_suffixes(root)):
                raise Malformed("suffixes of another type than the sequence")
            accepted, refused = [], []
            probes = list(gen.words(letters + 1, longest))
            probes += [s[i:j] for i in range(len(s)) for j in range(i + longest, len(s) + 1)]
            for w in probes:
                q = concrete(kind, w)
                (accepted if recognised(root, q, w) else refused).append(up(w))
            return {"s": up(s), "suffixes": suffixes, "accepted": accepted,
                    "refused": refused}

        rec.case(cls, f"{kind} way={way} {s}", run)

    # what each kind's suffixes look like only works for one type of token
    kinds = ["text", "bytes", "ints", "text-unicode", "tuples", "bytes-high", "falsy",
             "text-lines", "changes", "collide", "mixed", "strings"]
    k = 0
    for letters, n in ((2, 7), (3, 5)) if not THOROUGH else ((2, 9), (3, 7), (4, 5)):
        for s in gen.words(letters, n):
            kind = kinds[k % len(kinds)]
            way = (k // 12) % 6
            if way == 3 and kind in ("bytes", "bytes-high", "text", "text-unicode", "text-lines"):
                way = 0
            one(f"all words over {letters} letters", s, letters, 3, kind, way)
            k += 1
    r = rng("automaton")
    for _ in range(200 if not THOROUGH else 3000):
        letters = r.choice([1, 2, 3, 4])
        s = gen.base(r, r.randint(5, 30), letters)
        kind = r.choice(kinds)
        letters = max(s) + 1
        if letters > 5:
            continue
        one("random", s, letters, 2, kind, r.choice([0, 1, 2, 4, 5]))

    # many different tokens
    def wide(s, kind):
        def run():
            letters = sorted(set(s)) + [max(s) + 1]
            decode = Decoder(kind, letters)
            root = sa.build(concrete(kind, s))
            probes = set()
            for x in {s[i : i + 2] for i in range(len(s))}:
                probes |= {x, *((t, *x) for t in letters), *((*x, t) for t in letters)}
            probes = sorted(probes)
            if len(probes) > 1200:
                probes = r.sample(probes, 1200)
            accepted, refused = [], []
            for w in probes:
                q = concrete(kind, w)
                (accepted if recognised(root, q, w) else refused).append(up(w))
            return {"s": up(s), "suffixes": [decode(x) for x in sa.all_suffixes(root)],
                    "accepted": accepted, "refused": refused}
        rec.case("many different tokens", f"{kind} {s}", run)

    for n in gen.sizes(40, 3) + [64]:
        h, x, c = n, n + 1, n + 2
        fan = tuple(t for k in range(n) for t in (h, x, k))
        wide(fan + (x, c), r.choice(kinds[:6]))
        wide(fan + (x, c, h, c, x, h, x, c), r.choice(kinds[:6]))
    for _ in range(60 if not THOROUGH else 600):
        wide(gen.base(r, r.randint(20, 60), r.choice([6, 10, 16, 30])), r.choice(kinds))

    # sequences that make the automaton deep
    def deep(s, kind):
        def run():
            decode = Decoder(kind, s)
            root = sa.build(concrete(kind, s))
            n = len(s)
            probes = [s, s[1:], s[:-1], s[n // 3 : -5], s[1:] + s[:1], s[::-1], s + s[:1]]
            accepted, refused = [], []
            for w in probes:
                (accepted if recognised(root, concrete(kind, w), w) else refused).append(up(w))
            return {"s": up(s), "suffixes": [decode(x) for x in sa.all_suffixes(root)],
                    "accepted": accepted, "refused": refused}
        rec.case("long", f"{kind} {len(s)} {s[:50]}", run)

    # of each suffix the length and both ends
    def huge(s, probes, kind, suffixes=True):
        def run():
            decode = Decoder(kind, s)
            root = sa.build(concrete(kind, s))
            accepted, refused = [], []
            for w in probes:
                (accepted if recognised(root, concrete(kind, w), w) else refused).append(up(w))
            ends = [[len(x), decode(x[:3]), decode(x[-3:])]
                    for x in sa.all_suffixes(root)] if suffixes else []
            return {"s": up(s), "ends": ends, "all": suffixes,
                    "accepted": accepted, "refused": refused}
        rec.case("huge", f"{kind} {len(s)} {s[:50]}", run)

    for n in (150, 1010) if not THOROUGH else (150, 1010, 1500, 2100):
        deep((0, 1) * (n // 2) + (2,), "text")
        deep((0,) * n, "bytes")
        if n < 500:
            deep(gen.base(r, n, 4), "text-lines")
            deep(tuple(range(n)), "ints")


    n = gen.huge_size()
    for s, probes in [
        ((0,) * n, [(0,) * n, (0,) * (n - 1), (0,) * 5, (0,) * (n + 1), (1,), (0, 0, 1)]),
        ((0, 1) * (n // 2), [(0, 1) * (n // 2), (1, 0) * (n // 2 - 1), (1, 0), (0, 0), (1, 1), (2,),
                             (0, 1) * (n // 2) + (0,), (1, 0) * (n // 2)]),
    ]:
        for kind in ("text", "bytes"):
            huge(s, probes, kind)
    s = tuple(range(n))
    probes = [s, s[1:], s[: n // 2], s[-9:], s[70:75], s + (0,), s[::-1], s[70:75] + s[77:78],
              s[:1] + s[2:], (n + 5,)]
    huge(s, probes, "ints", suffixes=False)
    huge(s, probes, "text", suffixes=False)


main({"lcs": lcs, "nway": nway, "substring": substring, "automaton": automaton})
