"""Records the same diffs and merges on several kinds of sequence, repeatedly."""
from common import main, THOROUGH
import gen
from gen import KIND_NAMES, concrete, fits, rng, Decoder
from diffs import items, many_changes
from merges import triples, huge

from gaspra.changesets import diff_token_sequences
from gaspra.merge import merge_token_sequence
from gaspra.types import Change

KINDS = [*KIND_NAMES, "list"]


def convert(kind, s):
    return list(concrete("ints", s)) if kind == "list" else concrete(kind, s)


def typed(fragments, x):
    wanted = (type(x),) if isinstance(x, (str, bytes)) else (tuple, list)
    parts = [f for y in fragments for f in ((y.a, y.b) if isinstance(y, Change) else (y,))]
    return all(isinstance(f, wanted) for f in parts)


def run(kind, p, a, b):
    """One diff and one merge."""
    x, y, z = (convert(kind, s) for s in (p, a, b))
    decode = Decoder("ints" if kind == "list" else kind, p, a, b)
    d = list(diff_token_sequences(x, y))
    m = list(merge_token_sequence(x, y, z))
    kept = (x, y, z) == tuple(convert(kind, s) for s in (p, a, b))
    return ({"items": items(d, decode), "typed": typed(d, x), "kept": kept},
            {"items": items(m, decode), "typed": typed(m, x), "kept": kept})


def kinds_for(r, count, *sequences):
    big = sum(map(len, sequences)) > 200
    fitting = [k for k in KINDS if fits(k, *sequences) and not (big and k == "collide")]
    r.shuffle(fitting)
    out = fitting[:count]
    # text, bytes and other tokens are always among them
    for group in ("text",), ("bytes", "bytes-high"), ("ints", "tuples", "falsy", "mixed"):
        if not any(k.split("-")[0] in group or k in group for k in out):
            k = r.choice(group)
            if fits(k, *sequences):
                out.append(k)
    return out


def same(rec):
    r = rng("same")
    batch = []

    def flush(cls):
        """Run a batch of triples forward, then again in reverse order."""
        todo = [(t, kinds_for(r, 4 if cls[0] == 'b' and cls != 'big' else 1, *t))
                for t in batch]
        batch.clear()

        def go():
            diffs, merges = [[] for _ in todo], [[] for _ in todo]
            for order in (1, -1):
                for k in range(len(todo))[::order]:
                    t, kinds = todo[k]
                    for kind in kinds[::order]:
                        d, m = run(kind, *t)
                        diffs[k].append(d)
                        merges[k].append(m)
            return {"groups": diffs + merges}

        rec.case(cls, f"{todo}", go)

    limit = 900 if not THOROUGH else 10**9
    every = list(triples(260))
    r.shuffle(every)
    big = [t for t in every if t[0] in ("big", "many changes")]
    small = [t for t in every if t[0] not in ("big", "many changes")][: 4 * limit]
    for k, (cls, p, a, b) in enumerate(small):
        batch.append((p, a, b))
        if len(batch) == 4:
            flush("batches of triples")
    batch.clear()
    for cls, p, a, b in big:
        batch.append((p, a, b))
        flush("big")
    for cls, p, a, b in huge():
        if cls in ("edits", "insertion, deletion") or THOROUGH:
            batch.append((p, a, b))
            flush("huge")
    for n in (200, 500) if THOROUGH else (200,):
        for a, b in many_changes(n, r):
            batch.append((a, b, b))
            flush("many changes")


if __name__ == "__main__":
    main({"same": same})
