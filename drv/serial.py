"""Records serialised integers and patches."""
from itertools import product
from common import main, THOROUGH, Malformed
import gen, histories, texts
from gen import rng

from gaspra import serialize
from gaspra.changesets import find_changeset, strip_forward, strip_reverse

TOP = 2**64


def digits(v):
    return list(v.to_bytes(8, "big"))


def number(v):
    """An integer that was decoded."""
    if type(v) is int and 0 <= v < TOP:
        return digits(v)
    return [-1]


def refuses(function, *args):
    try:
        function(*args)
    except Exception:
        return True
    return False


TAILS = [b"", b"\x00", b"\xff", b"\xf1\x00abc", b"\x00" * 9, bytes(range(256))]


def entry(v, encode, decode, k):
    enc = encode(v)
    if type(enc) is not bytes:
        raise Malformed(f"{enc!r} is no encoding")
    back, rest = [], True
    for tail in (b"", TAILS[k % len(TAILS)]):
        got, left = decode(enc + tail)
        back.append(number(got))
        rest = rest and left == tail
    return {"v": digits(v), "enc": list(enc), "back": back, "rest": rest,
            "cuts": all(refuses(decode, enc[:n]) for n in range(len(enc)))}


def integers(rec):
    v = serialize.vserialize_int, serialize.vdeserialize_int
    f = serialize.serialize_int, serialize.deserialize_int

    def batch(cls, values, variable=True, outside=()):
        encode, decode = v if variable else f
        values = sorted(set(values))
        rec.case(cls, f"{'variable' if variable else 'fixed'}: {values[0]}..{values[-1]}"
                      f" ({len(values)}) {outside}", lambda: {
            "variable": variable,
            "batch": [entry(x, encode, decode, k) for k, x in enumerate(values)],
            "outside": [refuses(encode, x) for x in outside]})

    top = 70000 if not THOROUGH else 300000
    for k in range(0, top, 400):
        batch("all small", range(k, k + 401))
    for k in range(0, 70000, 1000):
        batch("fixed size", range(k, k + 200), variable=False)
    marks = {0, TOP - 1}
    for k in range(65):
        marks |= {2**k + d for d in range(-3, 4)}
    for k in range(9):
        marks |= {256**k * m + d for m in (1, 2, 127, 128, 240, 241, 249, 250, 255)
                  for d in (-2, -1, 0, 1)}
    for c in gen.mined()[0]:
        marks |= {c + d for d in range(-2, 3)}
    marks = sorted(m for m in marks if 0 <= m < TOP)
    for k in range(0, len(marks), 150):
        batch("edges", marks[k : k + 151])
    batch("edges, fixed size", [m for m in marks if m < 2**32], variable=False)
    r = rng("integers")
    for _ in range(150 if not THOROUGH else 3000):
        batch("random", [r.getrandbits(r.randint(1, 64)) for _ in range(100)])
    for _ in range(20):
        batch("random, fixed size", [r.getrandbits(r.randint(1, 32)) for _ in range(100)],
              variable=False)
    outside = [-1, -2, -240, -241, -256, -2**31, -2**63, -TOP, TOP, TOP + 1, TOP + 255, 2**65,
               2**71, 2**72, 2**100, 2**2040]
    batch("out of range", [1], True, outside)
    batch("out of range, fixed size", [1], False, [-1, -2**31, 2**32, 2**32 + 1, TOP])


def items(patch, full):
    out = []
    for x in patch:
        if type(x) is slice:
            if x.step is not None:
                raise Malformed(f"{x}")
            out.append({"k": 0, "t": [], "s": number(x.start), "e": number(x.stop)})
        elif type(x) is bytes:
            out.append({"k": 1, "t": list(x), "s": digits(0), "e": digits(0)})
        else:
            raise Malformed(f"{x!r:.80} is not part of a patch")
        if not full and len(out) > 1000:
            break
    return out


def read(stream):
    """Everything up to the end or to a failure."""
    out = []
    try:
        for x in serialize.deserialize_changeset(stream):
            out.append(x)
    except Exception:
        pass
    return out


def record(patch, r):
    stream = serialize.serialize_changeset(iter(patch))
    again = serialize.serialize_changeset(list(patch))
    if type(stream) is not bytes or stream != again:
        raise Malformed("no serialisation, or two")
    n = len(stream)
    if n <= 40:
        cuts = range(n)
    elif n <= 3000:
        cuts = sorted(r.sample(range(n), 12) + [n - 1, n - 2, 1, 2, 3])
    else:
        cuts = [n - 1, n - r.randint(2, 9), r.randint(1, n)]
    return {"patch": items(patch, True),
            "back": items(serialize.deserialize_changeset(stream), True),
            "cuts": [items(read(stream[:k]), True) for k in cuts]}


def patches(rec):
    r = rng("patches")

    def one(cls, patch):
        rec.case(cls, f"{patch}", lambda: record(patch, rec.r))

    small = [b"", b"a", b"\x00", b"\xff\xf1", slice(0, 0), slice(0, 1), slice(3, 7),
             slice(240, 241), slice(5, 5), slice(2287, 2288)]
    for n in range(4):
        every = list(product(small, repeat=n))
        if n == 3 and not THOROUGH:
            r.shuffle(every)
            every = every[:500]
        for p in every:
            one("short", list(p))
    edges = [0, 1, 239, 240, 241, 255, 256, 2286, 2287, 2288, 2543, 2544, 67823, 67824, 2**24 - 1,
             2**24, 2**32 - 1, 2**32, 2**40 - 1, 2**40, 2**48, 2**56 - 1, 2**56, 2**64 - 1]
    for e in edges:
        for s in edges:
            if s <= e:
                one("edges of spans", [slice(s, e), b"x", slice(e, e), slice(s, e), slice(s, e)])
    for n in [1, 2, 239, 240, 241, 242, 255, 256, 257, 495, 496, 497, 2286, 2287, 2288, 2289] + (
            gen.sizes(5000, 3) if THOROUGH else gen.sizes(1100, 3)):
        run = bytes(r.randrange(256) for _ in range(n))
        one("edges of runs", [run, slice(n, n + 1), run[:3], run[:2]])
    for n in (67823, 67824, 70000):
        one("edges of runs", [bytes(r.randrange(256) for _ in range(n)), slice(1, n)])
    for n in [4096, 10000, 32768, 65536, 65537, 67825] + ([140000] if THOROUGH else []):
        run = bytes(r.randrange(256) for _ in range(n))
        one("long runs", [run])
        one("long runs", [slice(0, 3), b"x", slice(3, 7), run])
    for n in [64, 257, 1025, 4097] + ([20001] if THOROUGH else []):  # many items
        one("many items", [x for k in range(n) for x in (b"%d" % k, slice(9 * k, 9 * k + 5))])
        one("many items", [slice(7 * k, 7 * k + 1 + k % 5) for k in range(n)])
        one("many items", [b"%d" % (k % 50) for k in range(n)] + [slice(0, n)])
    for n in (2**20 + 1,) if not THOROUGH else (2**20 + 1, 2**22 + 1):
        one("huge runs", [b"a", slice(0, n), bytes(range(251)) * (n // 251), slice(n, n + 1), b"z"])
    for _ in range(800 if not THOROUGH else 20000):
        p = []
        for _ in range(r.randint(0, 12)):
            if r.random() < 0.5:
                p.append(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 30, 300]))))
            else:
                s, e = sorted((r.getrandbits(r.choice([1, 8, 12, 17, 25, 33, 64])),
                               r.getrandbits(r.choice([1, 8, 12, 17, 25, 33, 64]))))
                p.append(slice(s, e))
        one("random", p)
    for _ in range(200 if not THOROUGH else 3000):
        p, a, _ = texts.triple(r)

        def real(p=p.encode(), a=a.encode()):
            stream = list(find_changeset(p, a).as_change_stream())
            strip = rec.r.choice([strip_forward, strip_reverse])
            return record(list(strip(stream)), rec.r)

        rec.case("patches of documents", f"{p!r} {a!r}", real)


if __name__ == "__main__":
    main({"integers": integers, "patches": patches})
