"""Inputs: sequences of small numbers, and the kinds of token they stand for."""
import ast, os, random
from fractions import Fraction
from functools import lru_cache
from itertools import product

from common import SEED, THOROUGH, Malformed
from gaspra.types import Change, CommonSlice

REPO = os.environ.get("GASPRA_REPO", "/repo")


def rng(*salt):
    return random.Random(f"{SEED}-{salt}")


# ------------------------------------------------------------ constants of the source
@lru_cache(None)
def mined():
    """Integer and string constants of the source under test: sizes and contents
    at which its behaviour may change."""
    ints, strs = set(), set()
    for root, _, files in os.walk(os.path.join(REPO, "src", "gaspra")):
        for name in sorted(files):
            if name.endswith(".py") and "torture" not in name and "benchmark" not in name:
                try:
                    tree = ast.parse(open(os.path.join(root, name)).read())
                except Exception:
                    continue
                for node in ast.walk(tree):
                    if isinstance(node, ast.Constant):
                        if type(node.value) is int:
                            ints.add(node.value)
                        elif type(node.value) is str and 0 < len(node.value) <= 12:
                            strs.add(node.value)
    return sorted(ints), sorted(strs)


def sizes(limit, low=5):
    """Interesting sizes up to a limit."""
    out = set()
    for c in [*mined()[0], 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192]:
        for d in (-1, 0, 1):
            if low <= c + d <= limit:
                out.add(c + d)
    return sorted(out)


# --------------------------------------------------------------------- kinds of token
class Collide:
    """Distinct tokens with equal hashes."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Collide and other.n == self.n

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"Collide({self.n})"


class Word(int):
    """Equal to its number."""


class Frozen:
    """Equal to others of the same number, with the same hash."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Frozen) and other.n == self.n

    def __hash__(self):
        return hash(("frozen", self.n))

    def __bool__(self):
        return self.n % 2 == 1

    def __len__(self):
        return self.n % 3


class Subclass(Frozen):
    pass


# Other tokens that are equal to a number.
EQUAL = [int, float, Word, Fraction, lambda n: bool(n) if n < 2 else n, complex]


def varied(s):
    """Every token in one of several forms, which are equal."""
    return tuple(EQUAL[(3 * k + n + k // 7) % len(EQUAL)](n) for k, n in enumerate(s))


def objects(s):
    """Every token is an object of its own, of one of two classes."""
    return tuple((Frozen, Subclass)[(k + n) % 3 == 0](n) for k, n in enumerate(s))


def _sequence_kind(palette, more):
    def token(n):
        return palette[n] if n < len(palette) else more(n)

    return (lambda s: tuple(token(n) for n in s)), token


def _kind_tables():
    kinds = {}

    def text(palette):
        return lambda n: palette[n] if n < len(palette) else chr((0x4E00 if n < 30000 else 0x20000) + n)

    for name, palette in {
        "text": "abcdefghijklmnopqrstuvwxyz",
        "text-unicode": "\u00e9e\u0301\U0001f600\x00\n\ud800 \u200b\r\\[",
        "text-lines": "\na\r b\t\x0b\x0c\x85\u2028",
        "text-blanks": " \n\t.,()x0-_",
    }.items():
        t = text(palette)
        kinds[name] = ((lambda t: lambda s: "".join(map(t, s)))(t), t)
    kinds["bytes"] = (lambda s: bytes(s), lambda n: n)  # below 256
    kinds["bytes-high"] = (lambda s: bytes((255 - n) for n in s), lambda n: 255 - n)
    for name, palette, more in [
        ("ints", [0, 1, -1, 2**70, 5, -2**63], lambda n: n + 1000),
        ("falsy", [0, "", None, (), b"", frozenset(), "0"], lambda n: n + 1000),
        ("strings", ["a\n", "", "b\n", "a", "\n", "ab", "b"], lambda n: f"line {n}\n"),
        ("tuples", [(0,), (1,), (0, 1), (), ((0,),), (2,), (1, 0)], lambda n: (n, "x")),
        ("mixed", ["a", b"a", 97, ("a",), None, 1.5, "97", Ellipsis, int], lambda n: n + 1000),
        ("changes", [Change("a", "b"), Change("", ""), CommonSlice(slice(0, 1), slice(0, 1)),
                     ("a",), Change((), ()), Change("b", "a")], lambda n: n + 1000),
        ("collide", [], Collide),
        ("equals", [True, False, 2.0, Fraction(7, 2), 1j, Word(7)], lambda n: float(n + 1000)),
    ]:
        kinds[name] = _sequence_kind(palette, more)
    kinds["varied"] = varied, lambda n: n
    kinds["objects"] = objects, Frozen
    return kinds


KINDS = _kind_tables()
KIND_NAMES = list(KINDS)


def fits(kind, *sequences):
    return not kind.startswith("bytes") or all(n < 256 for s in sequences for n in s)


def concrete(kind, sequence):
    return KINDS[kind][0](sequence)


class Decoder:
    """Back from concrete tokens to numbers (shifted by one: TLA+ sees 1, 2, ...).
    Tokens that no input contained become 0."""

    def __init__(self, kind, *sequences):
        token = KINDS[kind][1]
        self.table = {}
        for s in sequences:
            for n in s:
                self.table[token(n)] = n + 1

    def __call__(self, fragment):
        try:
            out = []
            for t in fragment:
                try:
                    out.append(self.table.get(t, 0))
                except TypeError:
                    out.append(0)
            return out
        except TypeError:
            raise Malformed(f"{fragment!r:.100} is no token sequence") from None


def up(s):
    return [n + 1 for n in s]


# ------------------------------------------------------------------- abstract inputs
def words(letters, longest, shortest=0):
    for n in range(shortest, longest + 1):
        yield from product(range(letters), repeat=n)


def fibonacci(n):
    a, b = (0,), (0, 1)
    while len(b) < n:
        a, b = b, b + a
    return b[:n]


def thue_morse(n):
    return tuple(bin(i).count("1") % 2 for i in range(n))


def edit(r, s, letters, edits, longest=4):
    """Random edits: insertions, deletions, replacements, moves, copies, swaps."""
    s = list(s)
    for _ in range(edits):
        k = r.randint(0, len(s))
        n = r.randint(1, longest)
        op = r.random()
        if op < 0.3:
            s[k:k] = [r.randrange(letters) for _ in range(n)]
        elif op < 0.55:
            del s[k : k + n]
        elif op < 0.75:
            s[k : k + n] = [r.randrange(letters) for _ in range(r.randint(1, longest))]
        elif op < 0.85:
            piece = s[k : k + n]
            del s[k : k + n]
            j = r.randint(0, len(s))
            s[j:j] = piece
        elif op < 0.95:
            piece = s[k : k + n]
            j = r.randint(0, len(s))
            s[j:j] = piece
        else:
            s[k : k + n] = s[k : k + n][::-1]
    return tuple(s)


def base(r, n, letters):
    """A sequence of length n with some structure."""
    style = r.randrange(7)
    if style == 0:
        return tuple(r.randrange(letters) for _ in range(n))
    if style == 1:  # periodic
        p = [r.randrange(letters) for _ in range(r.randint(1, max(1, n // 2)))]
        return tuple((p * (n // len(p) + 1))[:n])
    if style == 2:
        f = fibonacci(n)
        return tuple(x % letters for x in f)
    if style == 3:
        return tuple(x % letters for x in thue_morse(n))
    if style == 4:  # runs
        out = []
        while len(out) < n:
            out += [r.randrange(letters)] * r.randint(1, 6)
        return tuple(out[:n])
    if style == 5:  # repeated block with noise
        p = [r.randrange(letters) for _ in range(r.randint(2, 8))]
        out = []
        while len(out) < n:
            out += p
            if r.random() < 0.4:
                out.append(r.randrange(letters))
        return tuple(out[:n])
    # all different tokens
    out = list(range(n))
    r.shuffle(out)
    return tuple(out)


def random_pair(r, longest=24):
    letters = r.choice([1, 2, 2, 3, 3, 4, 6, 10, 40])
    a = base(r, r.randint(0, longest), letters)
    if r.random() < 0.75:
        b = edit(r, a, letters, r.randint(0, 6))
    else:
        b = base(r, r.randint(0, longest), letters)
    return (a, b) if r.random() < 0.5 else (b, a)


def pairs(exhaustive=((2, 5), (3, 3)), count=1500, longest=24):
    """(class, a, b): every short pair, then structured and random ones."""
    for letters, n in exhaustive:
        ws = list(words(letters, n))
        for a in ws:
            for b in ws:
                yield f"all pairs over {letters} letters up to {n}", a, b
    r = rng("pairs")
    for _ in range(count):
        yield ("random", *random_pair(r, longest))


def big_pairs(limit, count_per_size=1):
    """Pairs at interesting sizes."""
    r = rng("big")
    for n in sizes(limit, 20):
        for _ in range(count_per_size):
            letters = r.choice([2, 4, 20, 1000])
            a = base(r, n, letters)
            yield "big", a, edit(r, a, letters, r.randint(1, 8), longest=9)


def shapes(n, r):
    """Pairs in which n is the size of something."""
    if r.random() < 0.5:
        a, b = tuple(range(n)), tuple(range(n, 2 * n))
    else:
        a = tuple(r.choice((0, 1)) for _ in range(n))
        b = tuple(r.choice((2, 3)) for _ in range(n))
    i, j = r.randint(0, n), r.randint(0, n)
    few = tuple(a[k] for k in sorted(r.sample(range(n), min(n, 4)), reverse=True))
    yield "nothing in common", a, b
    yield "one token in common", a, b[:i] + (a[j % n],) + b[i:]
    yield "single tokens in common", a, b[:i] + few[:2] + b[i : i + 3] + few[2:] + b[i + 3 :]
    yield "run of this length", b[:3] + a + b[3:5], b[1:2] + a + b[5:6]
    yield "insertion of this length", a[:5] + b + a[5:7], a[:7]
    yield "replacement of this length", a[:5] + b + a[5:7], a[:5] + (2 * n + 1,) + a[5:7]
    yield "one token", a, (a[j % n],)
    yield "one token of many", (0,) * n, (0,) * i + (1,) + (0,) * (n - i)
    s, c = (r.randrange(3),), tuple(range(100, 100 + n))
    d = tuple(range(200 + n, 200 + 2 * n))
    yield "a first token in common", c + s + c[: n // 2], d + s + d[: n // 3]
    yield "first tokens in common", c[:n // 2] + s + c[n // 2:] + s + s + c, d[:2] + s + d + s + d[: n // 3]
    if n <= 300:
        yield "a block twice", s + c + s, s + c + c + s
        yield "a block twice", a[:3] + a, a[:3] + a + a
    yield "a block twice", c, c + c
    yield "period", (a[:3] * n)[:n], (a[:3] * n)[1 : n - 1] + (2 * n + 2,)
    yield "both ends", a[:1] + b + a[-1:], a
    # A beginning or an end in common that is not what is longest in common, or
    # after which the same tokens come again.
    new, k = (2 * n + 1,), r.randint(1, 9)
    whole = a + a[:k]
    yield "begins like this", whole, a + new + whole
    yield "ends like this", whole, whole + new + a[k % n:] + a[:k]
    yield "begins and ends like this", a + b[:3] + a, a + b[3:5] + a
    if n <= 130:  # n different tokens follow the same pair
        h, x, c = 2 * n + 3, 2 * n + 4, 2 * n + 5
        fan = tuple(t for k in range(n) for t in (h, x, k))
        yield "fan", fan + (x, c, k), (h, x, c, k)
        yield "fan, in the middle", fan + (x, c) + fan[:6], (h, x, c) + fan[3:5] + (h, x, 1, h, h, x)
    # A long run first, a longer one much later; and the other way round.
    far = tuple(range(3 * n + 10, 3 * n + 10 + 10 * n))
    run, k = tuple(range(3 * n + 9, 2 * n + 6, -1)), max(1, n // 2)
    if n <= 130:
        yield "runs far apart", run[:k] + (2 * n,) + run, run[:k] + far + run
        yield "runs far apart", run + (2 * n,) + run[:k], run + far + run[1:k] + run[:k]
        yield "runs far apart", run + run[:k], run[:k] + far[: 5 * n] + run[1:] + far[5 * n:] + run
    x, y = random_pair(r, 8)
    same = (0,) * n if r.random() < 0.5 else (0, 1) * (n // 2)
    yield "after what is the same", same + x, same + y
    yield "before what is the same", x + same, y + same
    yield "between what is the same", same + x + same, same + y + same


def shaped_pairs(limit):
    r = rng("shapes")
    for n in sizes(limit, 5):
        for cls, a, b in shapes(n, r):
            yield cls, *((a, b) if r.random() < 0.5 else (b, a))


def long_pieces(limit):
    """Pairs that share little, with pieces of interesting sizes beyond limit."""
    r = rng("pieces")
    for n in sizes(limit, 1025):
        if n % 2 == 0:  # one size of each few
            continue
        a, b = (0,) * n, tuple(k % 7 for k in range(n))
        yield "long pieces", (1, 2, 3, 9), (1, 2) + a + (3, 9)
        yield "long pieces", (1, 2) + b + (8, 9), (1, 2, 8, 9)
        yield "long pieces", (8, 2) + a + (3, 9), (8, 2) + tuple(x + 10 for x in b) + (3, 9)
        yield "long pieces", b, b[:5] + (9,) + b[6:]
        yield "long pieces", b[1:] + (9,), (8,) + b[: n // 2] + (10, 11) + b[n // 2 :]


# ------------------------------------------------------------------------------ huge
def huge_size():
    """Beyond all sizes at which the source might do something else."""
    return max([66_000, *(c for c in mined()[0] if c <= 150_000)]) + 1


def many_changes(a, new=None, every=1):
    """a, with other tokens between runs whose longest one is in the middle, and so on
    in both halves, as that takes the least time."""
    new = max(a) + 10 if new is None else new
    out, i, k = [], 0, 1
    while i < len(a):
        n = 1 + (k & -k).bit_length()
        out += a[i : i + n]
        i += n
        if k % every == 0:
            out += [(), (new + k,), (new + k, new + k + 1)][k % 3]
            i += k % 3 < 2
        k += 1
    return tuple(out)


def huge_pairs(n=None):
    """Pairs of sequences of this size of different tokens, with few changes.  One
    of both counts up, so that judging takes linear time."""
    n = n or huge_size()
    r = rng("huge")
    a = tuple(range(n))
    x, y = (n + 1,), (n + 2, n + 3)
    i, j, k = sorted(r.sample(range(100, n - 100), 3))
    some = [
        ("many changes", a, many_changes(a)),
        ("one token replaced", a, a[:i] + x + a[i + 1:]),
        ("edits", a, a[: i] + y + a[i:j] + a[j + 3: k] + x + a[k + 1:]),
        ("edits at both ends", a, y + a[2:i] + a[i + 40:-3] + x),
        ("a block moved", a, a[:i] + a[j:k] + a[i:j] + a[k:]),
        ("a block twice", a, a[: n - 1] + a),
        ("inserted", a[:7], a[:5] + tuple(range(2 * n, 3 * n)) + a[5:7]),
        ("appended", a[:3], a),
        ("replaced all", a, tuple(range(n, 2 * n))),
        ("one in common", a, tuple(range(n, n + i)) + (j,) + tuple(range(n + i, 2 * n))),
        ("the same", a, a),
        ("one side repeats", a, a[:k] + (5,) * (n - k)),
        ("nothing", a, ()),
    ]
    for k, (cls, a, b) in enumerate(some):
        yield f"huge: {cls}", a, b
        if k < 8 or THOROUGH:
            yield f"huge: {cls}", b, a
