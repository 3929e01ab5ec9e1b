"""Runs TLC on the specifications and judges recordings of the real code."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("GASPRA_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def rejected(out):
    """What TLC printed about rejected records."""
    seen = {}
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"BROKEN ') and line.endswith('"'):
            d = json.loads(json.loads(line)[len("BROKEN "):])
            seen.setdefault(d["at"], set()).update(d["broken"])
    return seen


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.started = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.models, self.recordings = [], [], [], []
        self.histories, self.unfinished = [], []
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replay_dir, exist_ok=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, heap="10g", timeout=800, extra=()):
        """Run TLC; cfg is the text of the configuration."""
        n = len(os.listdir(self.tmp))
        cfg_path = os.path.join(self.tmp, f"{n}-{module}.cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m",
               f"-Djava.io.tmpdir={self.tmp}", "-cp", JARS,
               "tlc2.TLC", "-workers", str(CORES), "-noGenerateSpecTE", "-deadlock",
               "-lncheck", "final", "-fp", "1", "-seed", str(self.seed),
               "-metadir", os.path.join(self.tmp, f"meta{n}"),
               "-config", cfg_path, *extra, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=self.tmp, env={**os.environ, **(env or {})},
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired as e:
            error = MachineryError(f"TLC did not finish {module} in {timeout} s")
            error.output = (e.stdout or b"").decode(errors="replace")
            raise error from e
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        return r.returncode, r.stdout, (int(m[-1][1].replace(",", "")) if m else 0)

    def model(self, module, cfg_name=None, timeout=800, **constants):
        """Model check a specification exhaustively; it has to hold."""
        cfg_name = cfg_name or module
        with open(os.path.join(SPEC, cfg_name + ".cfg")) as f:
            cfg = f.read()
        for name, value in constants.items():
            cfg, k = re.subn(rf"(?m)^(\s*){name} (=|<-) .*$", rf"\g<1>{name} \g<2> {value}", cfg)
            if k != 1:
                raise MachineryError(f"{name} is not a constant of {cfg_name}")
        code, out, states = self.tlc(module, cfg, timeout=timeout)
        if code != 0 or "No error has been found" not in out:
            sys.stderr.write(out[-6000:])
            raise MachineryError(f"the specification {module} does not hold by itself")
        self.models.append({"module": module, "config": cfg_name, "constants": constants,
                            "distinct_states": states})
        found = [json.loads(l)[len("HISTORY "):] for l in out.splitlines()
                 if l.startswith('"HISTORY ')]
        if found:  # behaviours that drivers replay
            path = os.path.join(self.tmp, f"histories-{len(self.models)}")
            with open(path, "w") as f:
                f.writelines(h + "\n" for h in sorted(set(found)))
            self.histories.append(path)
        return out

    def simulate(self, module, number, depth, per_goal, known=None, timeout=300):
        """Random behaviours of a specification; keeps those that first reach its goals, together
        with the histories in the file `known`."""
        with open(os.path.join(SPEC, module + ".cfg")) as f:
            cfg = f.read()
        extra = ("-simulate", f"num={max(1, number // CORES)}", "-depth", str(depth))
        code, out, _ = self.tlc(module, cfg, timeout=timeout, extra=extra)
        if code != 0 or "Finished in" not in out:
            sys.stderr.write(out[-6000:])
            raise MachineryError(f"TLC could not simulate {module}")
        goals = {}
        for l in out.splitlines():
            if l.startswith('"GOAL '):
                goal, history = json.loads(json.loads(l)[len("GOAL "):])
                goals.setdefault(goal, set()).add(json.dumps(history))
        path = os.path.join(self.tmp, f"goals-{len(self.models)}")
        with open(path, "w") as f:
            if known:
                f.write(open(known).read())
            chosen = {h for goal in goals.values() for h in sorted(goal)[:per_goal]}
            f.writelines(h + "\n" for h in sorted(chosen))
        self.models.append({"module": module, "config": module, "simulated": number,
                            "goals": {g: len(h) for g, h in sorted(goals.items())}})
        self.histories.append(path)
        return path

    # ------------------------------------------------------------- driving
    def record(self, driver, what, timeout=None, replay=None):
        """Run a driver on the real code; gives the recorded executions.
        replay: a file with behaviours of a specification for it to replay."""
        if replay:
            with open(replay) as f, open(os.path.join(self.tmp, "replay"), "w") as g:
                g.write(f.read())
        timeout = timeout or (420 if self.quick else 3000)
        out = os.path.join(self.tmp, f"{driver}-{what}")
        return Recording(self, driver, what, out, timeout)

    def replay_file(self):
        path = os.path.join(self.tmp, "replay")
        return path if os.path.exists(path) else ""

    def validate(self, module, verdict, recording, timeout=800, batch=None, extra_cfg="",
                 spec="TSpec", complete=True):
        """TLC judges every record with the operator `verdict`."""
        broken_all = []
        path = recording.path
        total = recording.count
        if total == 0:
            raise MachineryError(f"{recording.name}: nothing was recorded")
        cfg = (f"SPECIFICATION {spec}\nCONSTANTS\n  Verdict <- {verdict}\n"
               f"  Lanes = {min(64, total)}\n{extra_cfg}\nCHECK_DEADLOCK FALSE\n")
        if self.quick:  # leave time to report
            timeout = max(60, min(timeout, 850 - (time.time() - self.started)))
        try:
            code, out, states = self.tlc(module, cfg, env={"TRACE": path}, timeout=timeout)
        except MachineryError as e:
            if seen := rejected(getattr(e, "output", "")):
                self.unfinished.append(str(e))
                code = 0
            else:
                raise
        else:
            seen = rejected(out)
            if code != 0 or "No error has been found" not in out:
                why = [x for x in out.splitlines() if "Error" in x or "xception" in x]
                sys.stderr.write(out[-3000:] + "\n".join(["", *why[:20], ""]))
                problem = f"TLC could not judge {recording.name} with {verdict}"
                if not seen:
                    at = self.unlike(module, cfg, path) if code in (75, 76) else 0
                    if not at:
                        raise MachineryError(problem)
                    seen = {at: {"comparable"}}
                self.unfinished.append(problem)
            elif complete and states != total + min(64, total):
                raise MachineryError(f"TLC judged {states} of {total} records")
        self.traces += total
        self.recordings.append({"driver": recording.name, "judged_by": f"{module}!{verdict}",
                                "records": total, "classes": recording.classes})
        for at in sorted(seen):
            self.violation(recording, at - 1, sorted(seen[at]), f"{module}!{verdict}")
        if not self.samples or len(self.samples) < 6:
            self.samples += recording.samples(3)
        return seen

    def unlike(self, module, cfg, path):
        """The number of a record to which the specification's operators do not apply, since it is
        unlike anything that the specification describes (0: there is none)."""
        lines = open(path).readlines()
        part = os.path.join(self.tmp, "part.ndjson")

        def fails(lo, hi):
            with open(part, "w") as f:
                f.writelines(lines[lo:hi])
            lanes = re.sub(r"Lanes = \d+", f"Lanes = {min(64, hi - lo)}", cfg)
            code, out, _ = self.tlc(module, lanes, env={"TRACE": part}, timeout=300)
            return code in (75, 76) and "StackOverflow" not in out and "OutOfMemory" not in out

        lo, hi = 0, len(lines)
        if not fails(lo, hi):
            return 0
        while hi - lo > 1:
            mid = (lo + hi) // 2
            lo, hi = (lo, mid) if fails(lo, mid) else (mid, hi)
        return lo + 1 if fails(lo, hi) else 0

    # ------------------------------------------------------------ reporting
    def violation(self, recording, index, clauses, judge):
        meta = recording.meta(index)
        path = os.path.join(self.replay_dir, f"{self.pid}-{len(self.violations)}.json")
        histories = ""
        if self.replay_file():
            histories = os.path.join(self.replay_dir, f"{self.pid}.histories")
            shutil.copyfile(self.replay_file(), histories)
        if len(self.violations) < 20:
            with open(path, "w") as f:
                json.dump({"property": self.pid, "driver": recording.driver,
                           "what": recording.what, "case": meta, "tier": self.tier,
                           "seed": self.seed, "broken": clauses, "judge": judge,
                           "histories": histories,
                           "record": recording.record(index)}, f, indent=1)
        self.violations.append((path, clauses, meta))

    def finish(self, explanation=""):
        if self.unfinished and not self.violations:
            raise MachineryError(self.unfinished[0])
        coverage = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "models": self.models,
            "recordings": self.recordings,
            "samples": self.samples[:6],
        }
        if explanation:
            coverage["explanation"] = explanation
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": coverage,
              "assumptions": ["TLC evaluates the specification correctly",
                              "the drivers record what the code returned"],
              "wall_s": round(time.time() - self.started, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            for path, clauses, meta in self.violations[:5]:
                print(f"broken: {', '.join(clauses)}: {str(meta.get('input'))[:600]}")
            print(f"({len(self.violations)} executions break the property)")
            print(f"VIOLATION property={self.pid} replay={self.violations[0][0]}")
            return 1
        print(f"{self.pid}: {self.states} states, {self.traces} executions judged, "
              f"{ev['wall_s']} s: holds")
        return 0


class Recording:
    """The executions that a driver recorded, one JSON object per line."""

    def __init__(self, check, driver, what, out, timeout):
        self.check, self.driver, self.what = check, driver, what
        self.name = f"{driver}:{what}"
        shards = []
        deadline = time.time() + timeout
        for k in range(CORES):
            shards.append(Shard(check, driver, what, f"{out}.{k}", k))
        pending = list(shards)
        while pending:
            for s in list(pending):
                if s.finished():
                    pending.remove(s)
            if time.time() > deadline:
                for s in pending:
                    s.stop(f"did not finish in {timeout} s")
                pending = []
            time.sleep(0.02)
        self.path = out + ".ndjson"
        self.meta_path = out + ".meta"
        self.count = 0
        self.classes = {}
        with open(self.path, "w") as f, open(self.meta_path, "w") as g:
            for s in shards:
                for r, m in s.results():
                    f.write(r)
                    g.write(m)
                    self.count += 1
                    cls = json.loads(m).get("class", "")
                    self.classes[cls] = self.classes.get(cls, 0) + 1

    def _line(self, path, index):
        with open(path) as f:
            for k, line in enumerate(f):
                if k == index:
                    return json.loads(line)

    def meta(self, index):
        return self._line(self.meta_path, index)

    def record(self, index):
        return self._line(self.path, index)

    def samples(self, n):
        out = []
        for k in range(n):
            index = (self.count * (2 * k + 1)) // (2 * n)
            r = json.dumps(self.record(index))
            out.append({"input": str(self.meta(index).get("input"))[:300],
                        "record": r if len(r) < 600 else r[:600] + "..."})
        return out


class Shard:
    """One process of a driver; restarted behind a case that kills it."""

    def __init__(self, check, driver, what, out, k):
        self.check, self.driver, self.what, self.out, self.k = check, driver, what, out, k
        self.skip_to = 0
        self.restarts = 0
        self.extra = []
        for suffix in (".rec", ".meta", ".log"):
            open(out + suffix, "w").close()
        self.start()

    def start(self):
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONPATH=os.pathsep.join([os.path.join(VERIF, "drv"),
                                               os.path.join(REPO, "src")]),
                   PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX="/nonexistent/pycache", PYTHONHASHSEED="0",
                   PYTHONNOUSERSITE="1", LANG="C.UTF-8", LC_ALL="C.UTF-8", HOME=self.check.tmp,
                   VERIF_SEED=str(self.check.seed), VERIF_TIER=self.check.tier,
                   GASPRA_REPO=REPO, VERIF_HISTORIES=self.check.replay_file(), DRV_OUT=self.out, DRV_SHARD=str(self.k),
                   DRV_SHARDS=str(CORES), DRV_SKIP_TO=str(self.skip_to))
        env.pop("COLUMNS", None)
        self.log = open(self.out + ".log", "a")
        self.process = subprocess.Popen([PYTHON, "-s", "-m", self.driver, self.what],
                                        env=env, cwd=self.check.tmp, stdin=subprocess.DEVNULL,
                                        stdout=self.log, stderr=self.log)

    def finished(self):
        code = self.process.poll()
        if code is None:
            return False
        if code == 0:
            return True
        if code == 3:
            sys.stderr.write(open(self.out + ".log").read()[-3000:])
            raise MachineryError(f"driver {self.driver}:{self.what} failed")
        return not self.died(f"process ended with status {code}")

    def died(self, why):
        """The process died within a case: record that, go on behind it."""
        lines = open(self.out + ".meta").read().splitlines(True)
        rec = open(self.out + ".rec").read().splitlines(True)
        if len(lines) > len(rec) and lines[-1].endswith("\n"):
            rec = [r for r in rec if r.endswith("\n")]
            with open(self.out + ".rec", "w") as f:
                f.writelines(rec + [json.dumps({"error": why}) + "\n"])
            self.skip_to = json.loads(lines[-1])["index"] + 1
            self.restarts += 1
            if self.restarts < 4:
                self.start()
                return True
            return False
        sys.stderr.write(open(self.out + ".log").read()[-3000:])
        raise MachineryError(f"driver {self.driver}:{self.what}: {why}")

    def stop(self, why):
        """Out of time: what was recorded is judged, and there has to be something wrong with it."""
        self.process.kill()
        self.process.wait()
        self.check.unfinished.append(f"{self.driver}:{self.what} {why}")
        rec = [r for r in open(self.out + ".rec").read().splitlines(True) if r.endswith("\n")]
        if time.time() - os.path.getmtime(self.out + ".meta") > 200:
            rec.append(json.dumps({"error": why}) + "\n")  # a case without an answer
        with open(self.out + ".rec", "w") as f:
            f.writelines(rec)

    def results(self):
        rec = open(self.out + ".rec").read().splitlines(True)
        meta = open(self.out + ".meta").read().splitlines(True)
        return list(zip(rec, meta))
