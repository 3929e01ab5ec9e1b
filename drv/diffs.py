"""Records diffs and patches."""
from common import main, THOROUGH, Malformed
import gen
from gen import KIND_NAMES, concrete, fits, rng, up, Decoder

from gaspra import changesets
from gaspra.types import Change


def pick_kind(k, *sequences):
    kind = KIND_NAMES[k % len(KIND_NAMES)]
    return kind if fits(kind, *sequences) else "ints"


def items(stream, decode):
    out = []
    for x in stream:
        if isinstance(x, Change):
            out.append({"k": 1, "t": decode(x.a), "d": decode(x.b)})
        else:
            t = decode(x)
            out.append({"k": 0, "t": t, "d": t})
    return out


def span(s, version):
    if s.step not in (None, 1):
        raise Malformed(f"span with a step: {s}")
    start, stop, _ = s.indices(len(version))
    return {"k": 0, "t": [],
            "s": start if s.start is None or s.start < 0 else s.start,
            "e": stop if s.stop is None or s.stop < 0 else s.stop}


def patch_items(patch, version, decode):
    out = []
    for x in patch:
        if type(x) is slice:
            out.append(span(x, version))
        else:
            out.append({"k": 1, "t": decode(x), "s": 0, "e": 0})
    return out


def all_pairs(big, count):
    yield from gen.pairs(exhaustive=((2, 5), (3, 3)) if not THOROUGH else ((2, 7), (3, 4)),
                         count=count if not THOROUGH else 12 * count, longest=30)
    yield from gen.big_pairs(big if not THOROUGH else 3 * big)
    yield from gen.shaped_pairs(big if not THOROUGH else 2 * big)


def longer_pairs(big, count):
    yield from all_pairs(big, count)
    yield from gen.long_pieces(8200 if not THOROUGH else 9000)


def huge_pairs():
    """Kinds of tokens are as big as needed."""
    for k, (cls, a, b) in enumerate(gen.huge_pairs()):
        yield cls, a, b, ["ints", "text", "strings"][k % 3]
    k, constants = 0, [c for c in gen.mined()[0] if 220 < c <= 20000]
    for c in constants:
        if not any(c < d < c + 16 for d in constants):
            for cls, a, b in gen.huge_pairs(c + 1):
                k += 1
                yield cls.replace("huge", "beyond a constant"), a, b, pick_kind(k, a, b)


def many_changes(n, r):
    """n changes, in several layouts."""
    a = tuple(range(2 * n))
    yield a, tuple(x if x % 2 else x + 10**5 for x in a)          # replaced
    yield a, tuple(x for x in a if x % 2)                           # removed
    yield tuple(x for x in a if x % 2), a                           # inserted
    a = []
    for k in range(1, int((2 * n) ** 0.5)):                         # longest run last
        a += [10**4 + k] + [k * 1000 + x for x in range(k)]
    yield tuple(a), tuple(x for x in a if not 10**4 <= x < 2 * 10**4 or x % 1000 == 0)
    a = [r.randrange(3) for _ in range(n)]
    yield tuple(a), tuple(r.randrange(3) for _ in range(n))


def diff(rec, with_many=True):
    def one(cls, a, b, kind):
        def run():
            x, y = concrete(kind, a), concrete(kind, b)
            decode = Decoder(kind, a, b)
            first = items(changesets.diff_token_sequences(x, y), decode)
            diffs = [first]
            second = items(changesets.find_changeset(x, y).as_diff_stream(x), decode)
            if second != first:
                diffs.append(second)
            return {"a": up(a), "b": up(b), "diffs": diffs}

        rec.case(cls, f"{kind} {a} {b}", run)

    r = rng("many")
    if with_many:
        for n in (300, 1100) if not THOROUGH else (300, 1000, 2000, 4000):
            for k, (a, b) in enumerate(many_changes(n, r)):
                one("many changes", a, b, "ints" if k % 2 else "text")
    for cls, a, b, kind in huge_pairs():
        one(cls, a, b, kind)
    for k, (cls, a, b) in enumerate(longer_pairs(1030, 2500)):
        one(cls, a, b, pick_kind(k, a, b))


def keep(rec):
    r = rng("kept")
    def one(cls, a, b, kind):
        def run():
            x, y = concrete(kind, a), concrete(kind, b)
            decode = Decoder(kind, a, b)
            return {"a": up(a), "b": up(b),
                    "diffs": [items(changesets.diff_token_sequences(x, y), decode)]}

        rec.case(cls, f"{kind} {a} {b}", run)

    for k, (a, b) in enumerate(many_changes(60, r)):
        one("many changes", a, b, "ints")
    for cls, a, b, kind in huge_pairs():
        one(cls, a, b, kind)
    for k, (cls, a, b) in enumerate(all_pairs(1030, 2500)):
        one(cls, a, b, pick_kind(k, a, b))


def different(results):
    out = []
    for x in results:
        if x not in out:
            out.append(x)
    return out


def patch(rec):
    def one(cls, a, b, kind):
        def run():
            x, y = concrete(kind, a), concrete(kind, b)
            decode = Decoder(kind, a, b)
            stream = list(changesets.find_changeset(x, y).as_change_stream())
            forward = list(changesets.strip_forward(stream))
            reverse = list(changesets.strip_reverse(iter(stream)))
            changeset = changesets.find_changeset(x, y)
            return {
                "a": up(a), "b": up(b),
                "forward": patch_items(forward, x, decode),
                "reverse": patch_items(reverse, y, decode),
                "fresults": different(decode(z) for z in (
                    changesets.apply(forward, x), changesets.apply(iter(forward), x),
                    changesets.apply_forward(stream, x),
                    changesets.old_apply_forward(changeset, x))),
                "rresults": different(decode(z) for z in (
                    changesets.apply(reverse, y), changesets.apply_reverse(iter(stream), y),
                    changesets.old_apply_reverse(changeset, y))),
            }

        rec.case(cls, f"{kind} {a} {b}", run)

    r = rng("patch")
    for n in (120, 1100) if not THOROUGH else (120, 1000, 3000):
        for a, b in many_changes(n, r):
            one("many changes", a, b, "ints")
    for cls, a, b, kind in huge_pairs():
        one(cls, a, b, kind)
    for k, (cls, a, b) in enumerate(longer_pairs(1030, 2500)):
        one(cls, a, b, pick_kind(k, a, b))


if __name__ == "__main__":
    main({"diff": diff, "keep": keep, "patch": patch})
