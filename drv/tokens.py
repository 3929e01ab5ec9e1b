"""Records sessions with tokenizers, and text-level diffs and merges."""
from common import main, THOROUGH, Malformed
import gen, texts
from gen import rng
from texts import points

from gaspra import tokenizers
from gaspra.merge import merge_token_sequence
from gaspra.types import Change

MAKERS = {"null": tokenizers.NullTokenizer, "char": tokenizers.CharTokenizer,
          "line": tokenizers.LineTokenizer, "symbol": tokenizers.SymbolTokenizer}


class Numbers:
    """Numbers for tokens."""

    def __init__(self):
        self.table = {}

    def __call__(self, tokens):
        return [self.table.setdefault(t, len(self.table) + 1) for t in tokens]


def session_record(kind, contents, r, widest=10**9):
    tokenizer = MAKERS[kind]()
    number = Numbers()

    def spelled(tokens):
        text = tokenizer.decode(tokens)
        if type(text) is not type(contents[0]):
            raise Malformed(f"{text!r:.80} is not {type(contents[0]).__name__}")
        return text

    encoded, decoded = [], [[] for _ in contents]
    for i, text in enumerate(contents):
        encoded.append(tokenizer.encode(text))
        decoded[i].append(points(spelled(encoded[i])))
        j = r.randrange(i + 1)
        decoded[j].append(points(spelled(encoded[j])))
    tokens = [number(e) for e in encoded]
    pieces = [[points(spelled(e[k : k + 1])) for k in range(len(e))] for e in encoded]
    spans = []
    for i, e in enumerate(encoded):
        n = len(e)
        cuts = ([(s, t) for s in range(n + 1) for t in range(s, n + 1)] if n <= 4 else
                [tuple(sorted((r.randint(0, n), r.randint(0, n)))) for _ in range(6)])
        for s, t in cuts:
            t = min(t, s + widest)
            text = spelled(e[s:t])
            spans.append({"i": i + 1, "s": s, "e": t, "text": points(text),
                          "tokens": number(tokenizer.encode(text))})
    for i, text in enumerate(contents):
        decoded[i].append(points(spelled(encoded[i])))
        decoded[i].append(points(spelled(tokenizer.encode(text))))
    decoded = [[d for k, d in enumerate(ds) if d not in ds[:k]] for ds in decoded]
    return {"lines": False, "texts": [points(t) for t in contents], "tokens": tokens,
            "decoded": decoded, "pieces": pieces, "spans": spans}


def lines_record(contents):
    decoding, *encoded = tokenizers.line_encode_strings(*contents)
    return {"lines": True, "texts": [points(t) for t in contents],
            "decoding": [points(t) for t in decoding], "encoded": [list(e) for e in encoded]}


def accepted(kind, text, as_bytes):
    """The text as contents for a kind of tokenizer."""
    if not as_bytes:
        return text
    return text.encode("utf-8", "replace")


def huge():
    """For kinds of tokenizers, a huge text of many different pieces, an edited one,
    and a short one."""
    r = rng("huge texts")
    n = gen.huge_size()
    i = r.randrange(1000, n - 1000)
    letters = [chr(k + 100 if k < 55_000 else k + 3000) for k in range(n)]
    words = [f"{k:x} " for k in range(n // 2 + 1)]
    one = ["a" * i, "\n", "b", "a" * (n - i)]
    for kind, parts in (("line", [f"{c}\n" for c in letters if len(f"{c}\n".splitlines()) == 1]),
                        ("symbol", words), ("char", letters), ("null", letters), ("line", one),
                        ("symbol", one), ("null", one)):
        k = i // 2 if len(parts) > 4 else 1
        few = parts[k + 100 : k + 200] + parts[-30:-2] if len(parts) > 4 else []
        yield (kind, "".join(parts), "".join(parts[:k] + ["-\n"] + parts[k + 2 : -1]),
               "".join(few + ["-\n", "z", *few]))


def sessions(rec):
    r = rng("sessions")
    for k, (kind, whole, edited, few) in enumerate(huge()):
        rec.case("huge", f"{kind} {k}", lambda: session_record(
            kind, [accepted(kind, t, k % 2 == 1) for t in (whole, few)], rec.r, 300))
        if kind in ("line", "null"):
            rec.case("huge", f"lines {k}", lambda: lines_record([edited, few]))
    combos = [(kind, b) for kind in MAKERS for b in (False, True)]
    alphabets = ["ab\n ", "a\n\r-", "a$\n[", "a\u00e9\n\x85", "ab\u0301\n"]
    small = []
    for alphabet in alphabets:
        ts = list(texts.short(alphabet, 3 if not THOROUGH else 4))
        r.shuffle(ts)
        small += [ts[k : k + 5] for k in range(0, len(ts), 5)]
    if not THOROUGH:
        small = small[:120]
    small = [[""], ["", "", "a"], ["\n"]] + small
    for group in small:
        for kind, b in combos:
            rec.case("short texts", f"{kind} {b} {group}", lambda: session_record(
                kind, [accepted(kind, t, b) for t in group], rec.r))
        rec.case("short texts", f"lines {group}", lambda: lines_record(group))
    for k in range(150 if not THOROUGH else 4000):
        p, a, b2 = texts.triple(r, odd=r.choice([0.05, 0.3, 0.6]))
        group = [p, a, b2, texts.document(r), p]
        for kind, b in combos:
            rec.case("documents", f"{kind} {b} {group}", lambda: session_record(
                kind, [accepted(kind, t, b) for t in group], rec.r))
        rec.case("documents", f"lines {group}", lambda: lines_record(group))
    for k in range(40 if not THOROUGH else 600):  # not valid UTF-8, not encodable
        group = [bytes(r.choice([10, 13, 0, 65, 195, 169, 255, 128]) for _ in range(r.randint(0, 12)))
                 for _ in range(4)]
        for kind in ("null", "line"):
            rec.case("bytes that are no UTF-8", f"{kind} {group}",
                     lambda: session_record(kind, group, rec.r))
        group = ["".join(r.choice([*texts.UNENCODABLE, "a", "\n", "-"])
                         for _ in range(r.randint(0, 8))) for _ in range(4)]
        for kind in MAKERS:
            rec.case("lone surrogates", f"{kind} {group!r}",
                     lambda: session_record(kind, group, rec.r))
    for n in gen.sizes(1100 if not THOROUGH else 5000, 30):  # many different tokens
        group = ["".join(f"w{k}{r.choice([' ', chr(10)])}" for k in range(r.randint(0, 3), n)),
                 "".join(f"w{k}\n" for k in range(n, 0, -2)), "w1\n", ""]
        for kind, b in (("line", n % 2 == 0), ("symbol", n % 2 == 1)):
            rec.case("many tokens", f"{kind} {n}", lambda: session_record(
                kind, [accepted(kind, t, b) for t in group], rec.r))
    for k in range(30 if not THOROUGH else 300):  # long sessions
        group = [texts.document(r, lines=3) for _ in range(40)]
        for kind, b in combos:
            rec.case("long sessions", f"{kind} {b} {group}", lambda: session_record(
                kind, [accepted(kind, t, b) for t in group], rec.r))


# -------------------------------------------------------- text-level diff and merge
def text_items(stream, kind):
    out = []
    for x in stream:
        parts = (x.a, x.b) if isinstance(x, Change) else (x,)
        for y in parts:
            if type(y) is not kind:
                raise Malformed(f"{y!r:.80} is not {kind.__name__}")
        if isinstance(x, Change):
            out.append({"k": 1, "t": points(x.a), "d": points(x.b)})
        else:
            out.append({"k": 0, "t": points(x), "d": points(x)})
    return out


def token_merge(kind, p, a, b):
    """The token-level merge, in numbers, and what the tokens stand for."""
    tokenizer = MAKERS[kind]()
    number, pieces = Numbers(), {}
    encoded = [tokenizer.encode(t) for t in (p, a, b)]
    for e in encoded:
        for k in range(len(e)):
            pieces[number(e[k : k + 1])[0]] = points(tokenizer.decode(e[k : k + 1]))
    items = []
    for x in merge_token_sequence(*encoded):
        if isinstance(x, Change):
            items.append({"k": 1, "t": number(x.a), "d": number(x.b)})
        else:
            items.append({"k": 0, "t": number(x), "d": number(x)})
    # What a merge contains and its inputs do not has no text.
    return items, [pieces.get(k + 1, [-1]) for k in range(len(number.table))]


def calls_record(todo, shared, r):
    """todo: (tokenizer name or None, texts).  shared: tokenizers used for all
    calls of one name and type.  Results may be read later than they are asked for."""
    pending, done = [], []

    def settle(k):
        call, stream, kind, fresh = pending.pop(k)
        call["items"] = text_items(stream, kind)
        call["again"] = text_items(fresh(), kind)
        done.append(call)

    for name, contents in todo:
        kind = type(contents[0])

        def tokenizer(fresh=False):
            if name is None:
                return ()
            if fresh:
                return (MAKERS[name](),)
            return (shared.setdefault((name, kind), MAKERS[name]()),)

        if len(contents) == 2:
            call = {"call": "diff", "a": points(contents[0]), "b": points(contents[1])}
            stream = tokenizers.diff(*contents, *tokenizer())
            fresh = (lambda c, t: lambda: tokenizers.diff(*c, *t))(contents, tokenizer(True))
        else:
            tm, pieces = token_merge(name or "null", *contents)
            call = {"call": "merge", "tokenmerge": tm, "pieces": pieces}
            stream = tokenizers.merged(*contents, *tokenizer())
            fresh = (lambda c, t: lambda: tokenizers.merged(*c, *t))(contents, tokenizer(True))
        pending.append((call, stream, kind, fresh))
        while pending and r.random() < 0.7:
            settle(r.randrange(len(pending)))
    while pending:
        settle(len(pending) - 1)
    return {"calls": done}


def calls(rec):
    r = rng("calls")
    names = [None, None, *MAKERS]

    def job(contents, kinds=(str, bytes)):
        name, b = r.choice(names), r.choice(kinds) is bytes
        return name, tuple(accepted(name, t, b) for t in contents)

    def run(cls, todo):
        rec.case(cls, f"{todo}", lambda: calls_record(todo, {}, rec.r))

    for k, (kind, whole, edited, few) in enumerate(huge()):
        todo = [(kind, tuple(accepted(kind, t, k % 2 == 1) for t in c))
                for c in ((whole, edited), (edited, whole, edited + few))]
        for n, t in enumerate(todo):
            rec.case("huge", f"{kind} {k} {n}", lambda: calls_record([t], {}, rec.r))
    for name in names[1:]:
        for kind in (str, bytes):
            for n in (2, 3):
                run("nothing at all", [(name, (kind(),) * n)] * 2)
                run("nothing at all", [(name, (kind(),) * n),
                                       (name, tuple(accepted(name, t, kind is bytes)
                                                    for t in ("", "a\n", "")[:n]))])
    ts = list(texts.short("ab\n", 3)) + list(texts.short("a \n-", 2))
    for _ in range(250 if not THOROUGH else 4000):
        run("short texts", [job(r.sample(ts, r.choice([2, 3]))) for _ in range(6)])
    for _ in range(250 if not THOROUGH else 4000):
        todo = []
        for _ in range(4):
            p, a, b = texts.triple(r, odd=r.choice([0.05, 0.4]))
            todo.append(job((p, a, b) if r.random() < 0.6 else (a, b)))
        todo.append(todo[0])
        run("documents", todo)
    for _ in range(30 if not THOROUGH else 300):
        todo = []
        for _ in range(3):
            p, a, b = ("".join(r.choice("ab\n\udc80\ud800 ") for _ in range(r.randint(0, 8)))
                       for _ in range(3))
            todo.append(job((p, a, b), (str,)))
        run("lone surrogates", todo)
        todo = []
        for _ in range(3):
            p, a, b = (bytes(r.choice([10, 13, 65, 195, 169, 255]) for _ in range(r.randint(0, 8)))
                       for _ in range(3))
            todo.append((r.choice([None, "null", "line"]), (p, a, b)))
        run("bytes that are no UTF-8", todo)
    for n in gen.sizes(270 if not THOROUGH else 1100, 30):
        p, a, b = texts.triple(r, lines=n)
        run("big", [(name, tuple(accepted(name, t, n % 2 == 0) for t in c))
                    for name in ("line", "symbol") for c in ((p, a, b), (a, b))])


if __name__ == "__main__":
    main({"sessions": sessions, "calls": calls})
