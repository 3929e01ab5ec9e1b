#!/usr/bin/python3
"""selftest.py records [ID...]   falsifies recorded executions, field by field, and shows how
                                many of the falsified ones each check's judge rejects.
selftest.py specs [MODULE...]    falsifies the specification in known places; TLC has to find
                                that a property does not hold any more.
"""
import copy, json, os, random, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import vlib, check


# --------------------------------------------------------------------------- records
def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path + ("[]",), x
        for v in x:
            if isinstance(v, (dict, list)):
                yield from leaves(v, path + ("*",))
    elif not isinstance(x, str):
        yield path, x


def spots(x, path):
    """(container, key) of all places that a path without indices stands for."""
    todo = [x]
    for step in path[:-1]:
        new = []
        for y in todo:
            if step == "*":
                new += [z for z in y if isinstance(z, (dict, list))] if isinstance(y, list) else []
            elif isinstance(y, dict) and step in y:
                new.append(y[step])
        todo = new
    if path[-1] == "[]":
        return [(y, None) for y in todo if isinstance(y, list) and y]
    return [(y, path[-1]) for y in todo if isinstance(y, dict) and path[-1] in y]


def falsify(record, path, r):
    x = copy.deepcopy(record)
    found = spots(x, path)
    if not found:
        return None
    c, k = r.choice(found)
    if k is not None:
        if isinstance(c[k], bool):
            c[k] = not c[k]
        elif isinstance(c[k], (int, float)):
            c[k] += r.choice([1, -1])
        else:
            return None
        return x
    kind = r.choice(["drop", "twice", "change"])
    i = r.randrange(len(c))
    if kind == "change" and type(c[i]) is int:
        c[i] += 1
    elif kind == "twice":
        c.insert(i, copy.deepcopy(c[i]))
    else:
        del c[i]
    return x


class Falsifying(vlib.Check):
    def validate(self, module, verdict, recording, timeout=800, **kw):
        r = random.Random(1)
        records = [json.loads(l) for l in open(recording.path)]
        records = [x for x in records if x.get("error") == "" and len(json.dumps(x)) < 6000]
        r.shuffle(records)
        paths = sorted({p for x in records[:200] for p, _ in leaves(x)}, key=str)
        for path in paths:
            out = []
            for x in records:
                y = falsify(x, path, r)
                if y is not None and y != x:
                    out.append(y)
                if len(out) == 60:
                    break
            if not out:
                continue
            file = os.path.join(self.tmp, "falsified.ndjson")
            with open(file, "w") as f:
                f.writelines(json.dumps(y) + "\n" for y in out)
            judged = rejected = failed = 0
            todo = [out]
            while todo:  # those on which TLC fails are set aside
                batch = todo.pop()
                with open(file, "w") as f:
                    f.writelines(json.dumps(y) + "\n" for y in batch)
                cfg = (f"SPECIFICATION TSpec\nCONSTANTS\n  Verdict <- {verdict}\n"
                       f"  Lanes = {len(batch)}\n\nCHECK_DEADLOCK FALSE\n")
                try:
                    code, text, _ = self.tlc(module, cfg, env={"TRACE": file}, timeout=120)
                except vlib.MachineryError:
                    failed += len(batch)
                    continue
                if code == 0:
                    judged += len(batch)
                    rejected += len(set(re.findall(r'BROKEN \{\\"at\\":(\d+)', text))
                                    | set(re.findall(r'\\"at\\":(\d+)', text)))
                elif len(batch) < 8:
                    failed += len(batch)
                else:
                    todo += [batch[: len(batch) // 2], batch[len(batch) // 2:]]
            print(f"{self.pid} {verdict:20s} {'.'.join(map(str, path)):44s} "
                  f"{rejected:3d} of {judged} rejected" + (f", {failed} refused" if failed else ""),
                  flush=True)

    def model(self, module, *a, Printing=None, **kw):
        if Printing:
            return super().model(module, *a, Printing=Printing, **kw)


def records(ids):
    for pid in ids or sorted(check.CHECKS):
        c = Falsifying(pid, "quick", 1)
        try:
            check.CHECKS[pid](c)
        finally:
            shutil.rmtree(c.tmp, ignore_errors=True)


# ----------------------------------------------------------------------------- specs
# (machine, module to falsify, what, by what, constants)
FALSE = json.load(open(os.path.join(HERE, "tools", "falsified.json")))


def specs(names):
    missed = 0
    for machine, module, old, new, constants in FALSE:
        if names and machine not in names and module not in names:
            continue
        kept = vlib.SPEC
        vlib.SPEC = tempfile.mkdtemp(prefix="falsified-")
        c = vlib.Check("spec", "quick", 1)
        try:
            shutil.copytree(kept, vlib.SPEC, dirs_exist_ok=True)
            path = os.path.join(vlib.SPEC, module + ".tla")
            text = open(path).read()
            if text.count(old) != 1:
                print(f"{machine}: {text.count(old)} places for {old!r}")
                missed += 1
                continue
            open(path, "w").write(text.replace(old, new))
            cfg = open(os.path.join(vlib.SPEC, machine + ".cfg")).read()
            for name, value in constants.items():
                cfg = re.sub(rf"(?m)^(\s*){name} (=|<-) .*$", rf"\g<1>{name} \g<2> {value}", cfg)
            code, out, _ = c.tlc(machine, cfg)
            found = re.findall(r"Invariant (\w+) is violated", out)
            if code != 0 and not found and "Parsing or semantic" not in out:
                found = ["TLC's refusal to go on"]
            ok = code != 0 and bool(found)
            missed += not ok
            print(f"{machine:22s} {module:16s} {'found by ' + found[0] if ok else 'MISSED, exit ' + str(code):28s} {old} -> {new}",
                  flush=True)
            if not ok:
                print(out[-800:])
        finally:
            shutil.rmtree(vlib.SPEC, ignore_errors=True)
            shutil.rmtree(c.tmp, ignore_errors=True)
            vlib.SPEC = kept
    return missed


if __name__ == "__main__":
    sys.exit(bool({"records": records, "specs": specs}[sys.argv[1]](sys.argv[2:])))
