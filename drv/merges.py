"""Records merges, with the diffs of both branches against the parent."""
from common import main, THOROUGH
import gen
from gen import KIND_NAMES, concrete, fits, rng, up, Decoder
from diffs import items, pick_kind, huge_pairs

from gaspra.changesets import diff_token_sequences
from gaspra.merge import merge_token_sequence


def record(p, a, b, kind):
    x, y, z = (concrete(kind, s) for s in (p, a, b))
    decode = Decoder(kind, p, a, b)
    return {"p": up(p), "b0": up(a), "b1": up(b),
            "d0": items(diff_token_sequences(x, y), decode),
            "d1": items(diff_token_sequences(x, z), decode),
            "m01": items(merge_token_sequence(x, y, z), decode),
            "m10": items(merge_token_sequence(x, z, y), decode)}


def branch(r, p, letters, edits):
    """A branch whose edits often are where the other's may be."""
    s = list(p)
    for _ in range(edits):
        k = r.randint(0, len(s)) if r.random() < 0.6 else min(len(s), r.choice([0, 1, 2, len(s)]))
        c = r.random()
        if c < 0.35:
            s[k:k] = [r.randrange(letters, letters + 4) if r.random() < 0.6
                      else r.randrange(max(1, letters)) for _ in range(r.randint(1, 3))]
        elif c < 0.65:
            del s[k : k + r.randint(1, 4)]
        elif c < 0.9:
            s[k : k + r.randint(1, 3)] = [r.randrange(letters, letters + 4)
                                          for _ in range(r.randint(1, 3))]
        else:
            piece = s[k : k + r.randint(1, 3)]
            del s[k : k + len(piece)]
            j = r.randint(0, len(s))
            s[j:j] = piece
    return tuple(s)


def random_triple(r, longest):
    letters = r.choice([2, 3, 4, 8, 30, 30])
    p = gen.base(r, r.randint(0, longest), letters)
    n = max(letters, max(p, default=0) + 1)
    a = branch(r, p, n, r.randint(0, 5))
    mode = r.random()
    if mode < 0.6:
        b = branch(r, p, n, r.randint(0, 5))
    elif mode < 0.9:  # both share some edits
        q = branch(r, p, n, r.randint(1, 3))
        a, b = branch(r, q, n, r.randint(0, 2)), branch(r, q, n, r.randint(0, 2))
    else:
        b = gen.base(r, r.randint(0, longest), letters)
    return p, a, b


def at_one_place(n):
    """Every way to edit around one place of a parent of different tokens: all
    pairs of branches that replace one span by new tokens."""
    p = tuple(range(n))
    one = []
    for i in range(n + 1):
        for j in range(i, n + 1):
            for t in ((), (20,), (21,), (20, 21)):
                if t or j > i:
                    one.append(p[:i] + t + p[j:])
    for a in one:
        for b in one:
            yield p, a, b


def scripts(r, n, count):
    """Two random edit scripts of a parent of different tokens."""
    for _ in range(count):
        p = tuple(range(r.randint(1, n)))
        out = []
        for _ in range(2):
            s, i = [], 0
            while i <= len(p):
                c = r.random()
                if c < 0.25:
                    s += r.choice([(50,), (51,), (50, 51), (52,), (51, 50)])
                if i < len(p) and r.random() < 0.65:
                    s.append(p[i])
                i += 1
            out.append(tuple(s))
        yield p, out[0], out[1]


def shaped(n, r):
    """Triples in which n is the size of something."""
    p = tuple(range(n + 4))
    many = tuple(range(5000, 5000 + n))
    other = tuple(range(9000, 9000 + n))
    X, Y = (20000,), (20001,)
    k = r.randint(0, n)
    cut = p[:2] + p[2 + n:]
    yield "deletion, insertion before", p, cut, p[:2] + X + p[2:]
    yield "deletion, insertion within", p, cut, p[: 2 + k] + X + p[2 + k:]
    yield "deletion, insertion after", p, cut, p[: 2 + n] + X + p[2 + n:]
    yield "deletion, replacement", p, cut, p[:2] + X + p[2 + n:]
    yield "replacement, insertion before", p, p[:2] + Y + p[2 + n:], p[:2] + X + p[2:]
    yield "replacement, insertion after", p, p[:2] + Y + p[2 + n:], p[: 2 + n] + X + p[2 + n:]
    yield "replacement, deletion within", p, p[:2] + Y + p[2 + n:], p[: 2 + k] + p[3 + k:]
    yield "the same deletion", p, cut, cut[:1] + X + cut[1:]
    yield "insertion, deletion", p, p[:2] + many + p[2:], p[:2] + p[3:]
    yield "insertion, replacement", p, p[:2] + many + p[2:], p[:2] + X + p[3:]
    yield "two insertions", p, p[:2] + many + p[2:], p[:2] + other + p[2:]
    yield "nearly the same insertion", p, p[:2] + many + p[2:], p[:2] + many[:k] + X + many[k + 1:] + p[2:]
    yield "one insertion begins like the other", p, p[:2] + many + p[2:], p[:2] + many[:k] + p[2:]
    yield "the same insertion", p, p[:2] + many + p[2:] + X, p[:2] + many + p[2:]
    yield "both replace all", p, many, other
    yield "both delete, overlapping", p, p[:1] + p[1 + n:], p[:3] + p[3 + n // 2:]
    yield "after a conflict", p, X + p[1: 2 + n] + X, Y + p[1:]
    yield "appended", p, p + many, p[:-1]
    s, side = (r.randrange(3),), (many, other)
    q = tuple(range(30000, 30006))
    if r.random() < 0.5:
        side = [t[: n // 2] + s + t[n // 2:] for t in side]
    yield "sides with a token in common", q, *(q[:2] + t + s + t[:k] + q[4:] for t in side)
    yield "sides with tokens in common", q, *(q[:2] + tuple(
        y for j, x in enumerate(t) for y in ((x, *s) if j % (3 + i) == 2 else (x,))) + q[4:]
        for i, t in enumerate(side))
    yield "a block twice", q + many, q + many + many + X, q + many
    yield "a block twice by both", q + many + q[:2], q + many + many + q[:2], q + many + X + many + q[:2]
    yield "appended by both", p[:4], p[:4] + many, p[:4] + other[:k]
    yield "edits of neighbours", p, p[:2] + X + p[2 + n // 2:], p[: 2 + n // 2] + Y + p[2 + n:]


def huge():
    """Merges of huge sequences, of different tokens, with few edits."""
    r = rng("huge merges")
    n = gen.huge_size()
    p = tuple(range(n))
    many, other = tuple(range(n + 10, 2 * n + 10)), tuple(range(2 * n + 20, 3 * n + 20))
    X, Y = (n + 1,), (n + 2, n + 3)
    i, j, k = sorted(r.sample(range(100, n - 100), 3))
    yield "edits", p, p[:i] + X + p[i + 1: k] + p[k + 5:], p[:j] + Y + p[j:]
    e = n // 20
    yield "edits far apart", p, p[:e] + X + p[e + 1:], p[:-e] + Y + p[-e + 1:]
    yield "many edits", p, gen.many_changes(p, 2 * n, 3), gen.many_changes(p, 4 * n, 4)
    yield "many edits of one", p, gen.many_changes(p), p[:j] + Y + p[j + 1:]
    yield "conflict", p, p[:i] + X + p[i + 1: k] + p[k + 5:], p[:i] + Y + p[i + 1:j] + p[j + 1:]
    yield "the same edits", p, p[:i] + X + p[i + 1: k], p[:i] + X + p[i + 1: k]
    yield "deletion, insertion after", p, p[:2] + p[k:], p[:k] + X + p[k:]
    yield "deletion, insertion within", p, p[:2] + p[k:], p[:j] + X + p[j:]
    yield "insertion, deletion", p[:5], p[:2] + many + p[2:5], p[:2] + p[3:5]
    yield "two insertions", p[:5], p[:2] + many + p[2:5], p[:2] + other + p[2:5]
    yield "nearly the same insertion", p[:5], p[:2] + many + p[2:5], (
        p[:2] + many[:i] + X + many[i + 1:] + p[2:5])
    yield "both replace all", p, many, other
    yield "only one edits", p, p[:j] + p[k:] + Y, p


def triples(big):
    ws = list(gen.words(2, 3 if not THOROUGH else 4))
    for p in ws:
        for a in ws:
            for b in ws:
                yield f"all triples over 2 letters up to {len(ws[-1])}", p, a, b
    for t in at_one_place(3 if not THOROUGH else 4):
        yield ("one edit each", *t)
    r = rng("triples")
    for t in scripts(r, 6 if not THOROUGH else 9, 2500 if not THOROUGH else 30000):
        yield ("edit scripts", *t)
    for _ in range(2500 if not THOROUGH else 40000):
        yield ("random", *random_triple(r, 16))
    for n in gen.sizes(big if not THOROUGH else 3 * big, 20):
        letters = r.choice([2, 4, 20, 1000])
        p = gen.base(r, n, letters)
        k = max(letters, max(p) + 1)
        yield "big", p, branch(r, p, k, r.randint(1, 9)), branch(r, p, k, r.randint(1, 9))
    for n in gen.sizes(big if not THOROUGH else 2 * big, 5):
        for cls, *t in shaped(n, r):
            yield (cls, *t)
    for n in (60, 400) if not THOROUGH else (60, 400, 1500):
        p = tuple(range(2 * n))
        yield ("many changes", p, tuple(x + 10**4 * (x % 3 == 0) for x in p),
               tuple(x + 2 * 10**4 * (x % 4 == 0) for x in p))
        yield ("many changes", p, tuple(x for x in p if x % 4 != 1),
               tuple(y for x in p for y in ((x, x + 10**4) if x % 4 == 3 else (x,))))


def merge(rec):
    for k, (cls, p, a, b) in enumerate(huge()):
        kind = ["ints", "text", "strings"][k % 3]
        rec.case(f"huge: {cls}", f"{kind} {p} {a} {b}", lambda: record(p, a, b, kind))
    for k, (cls, p, a, b) in enumerate(triples(260)):
        kind = pick_kind(k, p, a, b)
        rec.case(cls, f"{kind} {p} {a} {b}", lambda: record(p, a, b, kind))
        if cls.startswith("sides with"):
            kind = ["text-blanks", "text-lines"][k % 3 == 0]
            rec.case(cls, f"{kind} {p} {a} {b}", lambda: record(p, a, b, kind))


def trivial(rec):
    def one(cls, p, b, kind):
        def run():
            x, y = concrete(kind, p), concrete(kind, b)
            decode = Decoder(kind, p, b)
            return {"text": up(b), "merges": [
                items(merge_token_sequence(x, x, y), decode),
                items(merge_token_sequence(x, y, x), decode),
                items(merge_token_sequence(x, y, y), decode)]}

        rec.case(cls, f"{kind} {p} {b}", run)

    for cls, a, b, kind in huge_pairs():
        one(cls, a, b, kind)
    # 5 kinds each for the shortest, one kind for the others
    for kind in KIND_NAMES:
        ws = list(gen.words(2, 2))
        for p in ws:
            for b in ws:
                one("all pairs, every kind", p, b, kind)
    for k, (cls, a, b) in enumerate(gen.pairs(
            exhaustive=((2, 5), (3, 3)) if not THOROUGH else ((2, 6), (3, 4)),
            count=1500 if not THOROUGH else 20000)):
        one(cls, a, b, pick_kind(k, a, b))
    for k, (cls, a, b) in enumerate(gen.shaped_pairs(140 if not THOROUGH else 1100)):
        one(cls, a, b, pick_kind(k, a, b))
    for k, (cls, a, b) in enumerate(gen.big_pairs(520 if not THOROUGH else 1500)):
        one(cls, a, b, pick_kind(k, a, b))


if __name__ == "__main__":
    main({"merge": merge, "trivial": trivial})
