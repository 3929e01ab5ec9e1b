"""Histories of additions, and contents for them."""
import json, os
import gen, texts
from gen import rng
from common import THOROUGH


def from_specification():
    """The histories that TLC found: lists of bases, 0 for none."""
    path = os.environ.get("VERIF_HISTORIES")
    if not path:
        return []
    return [json.loads(line) for line in open(path)]


def shapes(r, n, shape):
    """The bases of n versions."""
    bases = []
    for k in range(n):
        if k == 0 or shape == "none":
            bases.append(0)
        elif shape == "linear":
            bases.append(k)
        elif shape == "star":
            bases.append(1)
        elif shape == "two lines":
            bases.append(max(0, k - 1))
        elif shape == "restarts":
            bases.append(0 if r.random() < 0.1 else k)
        elif shape == "branches":
            bases.append(k if r.random() < 0.7 else r.randint(0, k))
        elif shape == "comb":
            bases.append(k if k % 3 else max(1, k - 2))
        else:
            bases.append(r.randint(0, k))
    return bases


SHAPES = ["linear", "star", "two lines", "restarts", "branches", "comb", "random"]
TINY = [b"", b"a", b"a\n", b"b", b"ab", b"\n", b"a\nb", b"a\na\n", b"b\na", b"a\nb\n", b"\n\n",
        b"aa", b"a b", b" a", "\u00e9".encode(), "e\u0301\n".encode(), b"a\r\nb", b"\x00", b"0"]
BINARY = [b"\xff", b"\x00\x01", b"\xc3", b"\xa9\n", b"\xc3\xa9", b"\xff\n\xfe", bytes(range(256))]


def contents(r, bases, style, tokenizer):
    """Contents for a history; those a tokenizer that reads UTF-8 can take."""
    out = []
    for k, base in enumerate(bases):
        c = r.random()
        if out and c < 0.12:
            out.append(r.choice(out))      # reverts, versions that are the same
        elif style == "tiny":
            out.append(r.choice(TINY))
        elif style == "binary" and tokenizer in ("null", "line"):
            if base and c < 0.8:
                s = bytearray(out[base - 1])
                for _ in range(r.randint(0, 3)):
                    j = r.randint(0, len(s))
                    s[j : j + r.randint(0, 2)] = bytes(
                        r.choice([0, 10, 13, 127, 128, 195, 169, 255])
                        for _ in range(r.randint(0, 3)))
                out.append(bytes(s))
            else:
                out.append(r.choice(BINARY))
        elif base and c < 0.9:
            out.append(texts.edited(r, out[base - 1].decode("utf-8", "replace"),
                                    odd=0.3).encode("utf-8"))
        elif c < 0.93:
            out.append(b"")
        else:
            out.append(texts.document(r, odd=0.3).encode("utf-8"))
    return out


def version_of_size(r, n, lines):
    """Contents of about n bytes."""
    if lines:
        return b"".join(b"line %d\n" % r.randrange(10**6) for _ in range(n // 12))
    return bytes(r.randrange(256) for _ in range(n))
