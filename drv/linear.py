"""Records what automata and searches cost, at growing sizes: states and
transitions, steps of the interpreter, tokens hashed or compared, memory."""
import sys, time, tracemalloc
from common import main, THOROUGH
import gen
from gen import rng

from gaspra import suffix_automaton as sa
from gaspra import multiple_strings, wrappers

HERE = __file__


class Counted:
    """A token that counts how often it is hashed or compared."""
    touched = 0
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        Counted.touched += 1
        return type(other) is Counted and other.n == self.n

    def __hash__(self):
        Counted.touched += 1
        return hash(self.n)


class Costly(BaseException):
    """So many steps that there is no need to count on."""


class Meter:
    """Counts the interpreter's steps outside of this file."""

    TOOL = 4

    def __init__(self, n):
        self.most = 4000 * (n + 50)

    def __enter__(self):
        self.steps = 0
        Counted.touched = 0
        m = sys.monitoring

        def instruction(code, offset):
            if code.co_filename == HERE:
                return m.DISABLE
            self.steps += 1
            if self.steps > self.most:
                self.most *= 2
                raise Costly(f"more than {self.steps} steps")

        m.use_tool_id(self.TOOL, "steps")
        m.register_callback(self.TOOL, m.events.INSTRUCTION, instruction)
        m.set_events(self.TOOL, m.events.INSTRUCTION)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.INSTRUCTION, None)
        m.free_tool_id(self.TOOL)
        self.touched = Counted.touched


def size_of(root):
    """Numbers of states and transitions."""
    name = next((x for x, y in getattr(root, "__dict__", {}).items()
                 if isinstance(y, dict) and any(type(z) is type(root) for z in y.values())), None)
    if name is None:
        return 1, 0
    seen, todo, edges = {id(root)}, [root], 0
    while todo:
        node = todo.pop()
        for other in getattr(node, name).values():
            edges += 1
            if id(other) not in seen:
                seen.add(id(other))
                todo.append(other)
    return len(seen), edges


def debruijn(n):
    """Binary, with few repetitions: from a shift register."""
    out, state = [], 1
    for _ in range(n):
        out.append(state & 1)
        bit = (state ^ (state >> 2) ^ (state >> 3) ^ (state >> 5)) & 1
        state = (state >> 1) | (bit << 15)
    return tuple(out)


FAMILIES = {
    "one token": lambda r, n: (0,) * n,
    "two tokens by turns": lambda r, n: (0, 1) * (n // 2) + (0,) * (n % 2),
    "one then another": lambda r, n: (0,) + (1,) * (n - 1),
    "most transitions": lambda r, n: (0,) + (1,) * (n - 2) + (2,),
    "one in the middle": lambda r, n: (0,) * (n // 2) + (1,) + (0,) * (n - n // 2 - 1),
    "a half, another half": lambda r, n: (0,) * (n // 2) + (1,) * (n - n // 2),
    "fibonacci": lambda r, n: gen.fibonacci(n),
    "thue-morse": lambda r, n: gen.thue_morse(n),
    "shift register": lambda r, n: debruijn(n),
    "2 tokens": lambda r, n: tuple(r.randrange(2) for _ in range(n)),
    "3 tokens": lambda r, n: tuple(r.randrange(3) for _ in range(n)),
    "26 tokens": lambda r, n: tuple(r.randrange(26) for _ in range(n)),
    "all different": lambda r, n: tuple(range(n)),
    "twice the same": lambda r, n: tuple(range(n // 2)) * 2 + (n,) * (n % 2),
    "rising runs": lambda r, n: tuple(x for k in range(n) for x in (0,) * k + (1,)
                                      if k * k <= 2 * n)[:n] + (2,) * max(
        0, n - len([1 for k in range(n) if k * k <= 2 * n for _ in range(k + 1)])),
    "period of 7": lambda r, n: ((0, 1, 0, 2, 0, 1, 1) * (n // 7 + 1))[:n],
    "period and noise": lambda r, n: tuple((k * k // 50) % 3 for k in range(n)),
}

OTHERS = {
    "the same": lambda r, s: s,
    "reversed": lambda r, s: s[::-1],
    "without its end": lambda r, s: s[:-1] + (10**6,),
    "edited": lambda r, s: tuple(x if k % 50 else 10**6 + k % 3 for k, x in enumerate(s)),
    "rotated": lambda r, s: s[len(s) // 2:] + s[: len(s) // 2],
    "one token": lambda r, s: s[-1:] * len(s),
    "nothing in common": lambda r, s: tuple(10**6 + x for x in s),
}


def measured(r, family, other, n, what):
    s = FAMILIES[family](r, n)
    o = OTHERS[other](r, s)
    a, b = [Counted(x) for x in s], [Counted(x) for x in o]
    if what == "n-way":
        parts = [a[: n // 3], b[: n // 3], a[n // 3 : 2 * (n // 3)]]
        with Meter(n) as m:
            multiple_strings.find_lcs(*parts)
        return {"n": n, "states": 0, "edges": 0, "steps": m.steps, "touched": m.touched}
    with Meter(n) as m:
        if what == "wrapped":
            wrappers.find_lcs(a, b)
            list(wrappers.find_substring(a, b[: n // 2]))
        else:
            root = sa.build(a)
            if what == "lcs":
                sa.find_lcs(root, b)
            else:
                list(sa.find_substring_all(root, a[:1]))
                list(sa.find_substring_all(root, b))
                sa.find_substring(root, a)
                list(sa.find_substring_all(root, ()))
    states, edges = (0, 0) if what == "wrapped" else size_of(root)
    return {"n": n, "states": states, "edges": edges, "steps": m.steps, "touched": m.touched}


def memory(r, family, n):
    """Bytes in use at the peak."""
    s = FAMILIES[family](r, n)
    tracemalloc.start()
    try:
        root = sa.build(s)
        sa.find_lcs(root, s[::-1])
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def seconds(r, family, other, n, what):
    """Processor time."""
    s = FAMILIES[family](r, n)
    o = OTHERS[other](r, s)
    start = time.process_time()
    if what == "n-way":
        multiple_strings.find_lcs(s[: n // 3], o[: n // 3], s[n // 3 : 2 * (n // 3)])
    else:
        root = sa.build(s)
        if what == "lcs":
            sa.find_lcs(root, o)
        else:
            list(sa.find_substring_all(root, s[:1]))
            sa.find_substring(root, o)
    return time.process_time() - start


def long(rec):
    """Sizes at which whatever the interpreter does in one step has to be linear, too."""
    n = 150_000 if not THOROUGH else 600_000
    for family in ("one token", "3 tokens", "period of 7", "all different", "one then another",
                   "shift register"):
        for other, what in (("edited", "lcs"), ("the same", "find"), ("reversed", "n-way")):
            def run():
                times = []
                for m in (n // 60, n):
                    t = min(seconds(rng(family), family, other, m, what) for _ in range(
                        3 if m < n else 1))
                    times.append([m, int(1e7 * t / m)])
                return {"points": [], "peaks": [], "times": times}
            rec.case(f"time: {what}", f"{family}, {other}, {n}", run, seconds=60)


def growth(rec):
    ns = [120, 480, 1920] if not THOROUGH else [120, 480, 1920, 7680]
    k = 0
    for family in FAMILIES:
        for other in OTHERS:
            for what in ("lcs", "find", "n-way", "wrapped"):
                k += 1
                if not THOROUGH and k % 3:
                    continue
                rec.case(f"growth: {what}", f"{family}, {other}, {ns}", lambda: {
                    "points": [measured(rng(family, n), family, other, n, what) for n in ns],
                    "peaks": [], "times": []})
        rec.case("memory", f"{family}", lambda: {"points": [], "peaks": [
            [n, memory(rng(family, n), family, n)] for n in [4 * n for n in ns]],
            "times": []})


def sizes(rec):
    """Only states and transitions: every short sequence, and others."""
    def one(cls, s):
        def run():
            states, edges = size_of(sa.build(s))
            return {"points": [{"n": len(s), "states": states, "edges": edges, "steps": 0,
                                "touched": 0}], "peaks": [], "times": []}
        rec.case(cls, f"{s}", run)

    for letters, n in ((2, 9), (3, 6)) if not THOROUGH else ((2, 12), (3, 8), (4, 6)):
        for s in gen.words(letters, n):
            one(f"all words over {letters} letters", s)
    for family in FAMILIES:
        for n in gen.sizes(1100 if not THOROUGH else 4100):
            one(family, FAMILIES[family](rng(family, n), n))


def both(rec):
    growth(rec)
    long(rec)
    sizes(rec)


if __name__ == "__main__":
    main({"cost": both})
