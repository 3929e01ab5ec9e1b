"""Records line-oriented diffs of streams."""
from itertools import product
from common import main, THOROUGH, Malformed
import gen, texts
from gen import rng
from texts import points
from tokens import MAKERS, text_items

from gaspra import tokenizers, diff_to_lines
from gaspra.changesets import diff_token_sequences
from gaspra.merge import merge_token_sequence
from gaspra.types import Change


def text(t):
    if type(t) is not str:
        raise Malformed(f"{t!r:.80} is no text")
    return points(t)


def parts(side, other):
    """The parts of a side of a change; other: which half of a part is the other side's."""
    if type(side) is str:
        return [{"h": 0, "t": text(side)}]
    out = []
    for x in side:
        if isinstance(x, Change):
            if x[other]:
                raise Malformed(f"text of the other side in {side!r:.100}")
            out.append({"h": 1, "t": text(x[1 - other])})
        else:
            out.append({"h": 0, "t": text(x)})
    return out


def lined(stream):
    out = []
    for x in stream:
        if isinstance(x, Change):
            out.append({"k": 1, "t": parts(x.a, 1), "d": parts(x.b, 0)})
        else:
            out.append({"k": 0, "t": [{"h": 0, "t": text(x)}], "d": [{"h": 0, "t": text(x)}]})
    return out


def record(stream):
    stream = list(stream)
    before = list(stream)
    once = lined(diff_to_lines.to_line_diff(stream))
    lines = [once]
    for more in (lined(diff_to_lines.to_line_diff(iter(stream))),
                 lined(list(tokenizers.decode_and_line_diff_changes(
                     iter(stream), tokenizers.NullTokenizer())))):
        if more not in lines:
            lines.append(more)
    consolidated = [lined(diff_to_lines.consolidated_line_diff(iter(stream)))]
    for more in (lined(diff_to_lines.consolidate(diff_to_lines.to_line_diff(stream))),):
        if more not in consolidated:
            consolidated.append(more)
    if stream != before:
        raise Malformed("the stream was modified")
    return {"stream": text_items(stream, str), "lined": lines, "consolidated": consolidated}


def random_text(r, chars, longest):
    return "".join(r.choice(chars) for _ in range(r.randint(0, longest)))


def random_stream(r):
    chars = r.choice(["a\n", "ab\n", "a\n ", "a\n\n\t", "a\n\r\x0b\x85\u2028", "\n ", "\n",
                      "a [\\\n"])
    longest = r.choice([1, 2, 3, 6])
    out, kind = [], r.random() < 0.5
    for _ in range(r.randint(0, 9)):
        if kind:
            a, b = random_text(r, chars, longest), random_text(r, chars, longest)
            if a or b:
                out.append(Change(a, b))
                kind = False
        else:
            t = random_text(r, chars, longest)
            if t:
                out.append(t)
                kind = True
    return out


def streams(rec):
    r = rng("streams")

    def one(cls, stream):
        rec.case(cls, repr(stream), lambda: record(stream))

    one("empty", [])
    one("empty", [""])
    short = [t for t in texts.short("a\n", 2)]
    changes = [Change(a, b) for a in short for b in short if a or b]
    keeps = [t for t in short if t]
    every = []
    for n in (1, 2, 3):
        for first in (keeps, changes):
            other = changes if first is keeps else keeps
            every += [list(s) for s in product(*[first if k % 2 == 0 else other for k in range(n)])]
    if not THOROUGH:
        few = [s for s in every if len(s) < 3]
        more = [s for s in every if len(s) == 3]
        r.shuffle(more)
        every = few + more[:2500]
    for s in every:
        one("short streams", s)
    for _ in range(3000 if not THOROUGH else 60000):
        one("random streams", random_stream(r))
    for k in range(500 if not THOROUGH else 8000):
        p, a, b = texts.triple(r, odd=r.choice([0.0, 0.1, 0.4]))
        kind = list(MAKERS)[k % 4]

        def of_texts():
            tokenizer = MAKERS[kind]()
            encoded = [tokenizer.encode(t) for t in (p, a, b)]
            if k % 3:
                changes = diff_token_sequences(encoded[0], encoded[1])
            else:
                changes = merge_token_sequence(*encoded)
            return record(tokenizers.decode_changes(changes, tokenizer))

        rec.case("diffs and merges of documents", f"{kind} {p!r} {a!r} {b!r}", of_texts)
    n = gen.huge_size()
    many = "".join(r.choice(["c\n", "\n", "cd "]) for _ in range(n // 2))
    other = "".join(r.choice(["e\n", "\n", " "]) for _ in range(n // 2))
    for k, s in enumerate((
            ["a\nb", Change("c", ""), many, Change("", "d\n"), "e"],
            ["a\nb", Change(many, other), "c"],
            [Change("", many), "\n", Change(other, "")],
            ["a", Change("x" * n, "y"), "z" * n, Change("", "y" * n + "\n"), "z" * n + "\n"],
            [Change("a", "b")] + ["c", Change("d", "")] * (n // 16) + ["\n" * n],
            ["c\nd", Change("\ne", "a\n")] * (n // 16))):
        rec.case("huge", f"{k}", lambda: record(s))
    for n in gen.sizes(1100 if not THOROUGH else 4000, 30):
        s, kind = [], n % 2 == 0
        for k in range(n):
            s.append(Change(r.choice(["", "a", "a\n"]), r.choice(["b", "b\n", "\n"])) if kind
                     else r.choice(["c", "c\n", "\n", " ", "c\nd", "c\n\nd\n"]))
            kind = not kind
        one("long streams", s)
        # within one line, or two
        s = [Change(*r.choice([("a", "b"), ("", "b"), ("a", ""), ("c c", "d")])) if k % 2
             else r.choice(["c", " ", "c d"]) for k in range(n % 4 // 2, n)]
        if n % 3:
            j = r.randrange(len(s))
            s[j] = Change("a\n", "b\n") if isinstance(s[j], Change) else "c\n"
        one("long lines", s)


if __name__ == "__main__":
    main({"streams": streams})
