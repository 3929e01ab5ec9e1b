"""Texts: short ones, documents, and edits of documents."""
import gen
from gen import rng

# Pieces of text that parts of the code might treat specially.
ODDITIES = ["\n", "\r\n", "\r", "\t", " ", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029",
            "\\", "\\\\", "[", "]", "[red]", "[/]", "\\[", ":smile:", "{", "}", "%s", "{}",
            "$", "-", "_", "a_b-c$", "0", "\u00e9", "e\u0301", "\U0001f600", "\u200b", "\ufeff",
            "\u4e2d\u6587", "\u0660", "<<<<<<<", "=======", ">>>>>>>", "|||||||", "&", "<", ">",
            "\u00df", "\u0130", "\x7f", "#", "//", "\"", "'", "\x01", "\x00"]
UNENCODABLE = ["\ud800", "\udfff"]
BROKEN = [b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xc0\x80",
          b"\xc1\xbf", b"\xe0\x9f\xbf", b"\xf0\x8f\xbf\xbf", b"\x80", b"\xff", b"\xfe", b"\xc3", b"\xe2\x82",
          b"\xf0\x9f\x98", b"\xf0", b"\xe2", b"\xff\xfe", b"\xed\xa0\xbd\xed\xb8\x80"]
WORDS = ["alpha", "beta", "gamma", "the", "a", "b", "x1", "foo_bar", "if", "return", "0", "42"]


def short(alphabet, longest):
    for n in range(longest + 1):
        for w in gen.words(len(alphabet), n, n):
            yield "".join(alphabet[k] for k in w)


def line(r, odd=0.15, newline=True):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        out.append(r.choice(ODDITIES) if r.random() < odd else r.choice(WORDS))
        out.append(r.choice([" ", " ", "", ", ", "."]))
    return "".join(out).replace("\n", "") + ("\n" if newline else "")


def document(r, lines=None, odd=0.15):
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 20]) if lines is None else lines
    pool = [line(r, odd) for _ in range(max(1, n))]
    out = [r.choice(pool) if r.random() < 0.3 else p for p in pool][:n]
    if out and r.random() < 0.3:
        out[-1] = out[-1].rstrip("\n")
    if out and r.random() < 0.1:
        out.insert(0, "\n")
    return "".join(out)


def edited(r, text, edits=None, odd=0.15):
    """Edits of whole lines, of words within a line, and of the ending."""
    lines = text.splitlines(keepends=True)
    for _ in range(r.randint(1, 4) if edits is None else edits):
        k = r.randint(0, len(lines))
        op = r.random()
        if op < 0.25:
            lines[k:k] = [line(r, odd) for _ in range(r.randint(1, 3))]
        elif op < 0.45:
            del lines[k : k + r.randint(1, 3)]
        elif op < 0.85 and k < len(lines):
            ws = lines[k].split(" ")
            j = r.randrange(len(ws))
            choice = r.random()
            if choice < 0.5:
                ws[j] = r.choice(WORDS + ODDITIES) if r.random() < 0.3 else r.choice(WORDS)
            elif choice < 0.75:
                ws.insert(j, r.choice(WORDS))
            elif len(ws) > 1:
                del ws[j]
            lines[k] = " ".join(ws)
        elif op < 0.93:
            lines[k : k + 1] = [line(r, odd)]
        else:
            if lines:
                lines[-1] = lines[-1].rstrip("\n") if lines[-1].endswith("\n") else lines[-1] + "\n"
    return "".join(lines)


def triple(r, odd=0.15, lines=None):
    p = document(r, lines, odd)
    a = edited(r, p, odd=odd)
    b = edited(r, p if r.random() < 0.85 else a, odd=odd)
    if r.random() < 0.05:
        b = document(r, lines, odd)
    return p, a, b


def points(text):
    """A text as numbers."""
    if isinstance(text, (bytes, str)):
        return list(text) if isinstance(text, bytes) else [ord(c) for c in text]
    raise TypeError(f"{text!r:.80} is no text")


def not_utf8(r):
    """Bytes that no UTF-8 text has, in something that is one."""
    around = [b"", b"", b"a", b"a\n", b"\n", b"caf\xc3\xa9 \xe2\x82\xac\n", b"x" * 40, b"\r\n"]
    after = b"" if r.random() < 0.4 else r.choice([b"\n", b"b", b"a\n"])
    return r.choice(around) + r.choice(BROKEN) + after
