"""Shared by the drivers: run cases on the real code and record the outcome.

A case is run in this process under a time and a memory limit; whatever it
raises is recorded as its outcome.  Drivers only use gaspra's public functions.
"""
import json, os, random, resource, signal, sys, time, traceback

SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
SHARD = int(os.environ.get("DRV_SHARD", "0"))
SHARDS = int(os.environ.get("DRV_SHARDS", "1"))
SKIP_TO = int(os.environ.get("DRV_SKIP_TO", "0"))
ONLY = os.environ.get("DRV_ONLY")
OUT = os.environ.get("DRV_OUT", "/tmp/drv-out")
CASE_SECONDS = 100


class Malformed(Exception):
    """The code returned something that is no answer at all."""


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


class Recorder:
    def __init__(self):
        self.index = -1
        self.rec = open(OUT + ".rec", "a")
        self.meta = open(OUT + ".meta", "a")
        self.timeouts = 0
        self.r = random.Random()  # for choices within a case
        signal.signal(signal.SIGALRM, _alarm)

    def mine(self):
        """Advance to the next case; whether this process runs it."""
        self.index += 1
        if ONLY is not None:
            return self.index == int(ONLY)
        return self.index % SHARDS == SHARD and self.index >= SKIP_TO and self.timeouts < 3

    def run(self, cls, description, function, seconds=CASE_SECONDS):
        """Run one case. `function` gives the record, a dictionary."""
        self.meta.write(json.dumps({"index": self.index, "class": cls,
                                    "input": description[:20000]}) + "\n")
        self.meta.flush()
        self.r.seed(f"{SEED} {self.index}")
        began = time.time()
        try:
            signal.alarm(seconds)
            record = {"error": ""}
            record.update(function())
            signal.alarm(0)
        except CaseTimeout:
            self.timeouts += 1
            record = {"error": f"no answer in {seconds} s"}
        except (KeyboardInterrupt, SystemExit) as e:
            signal.alarm(0)
            record = {"error": f"{type(e).__name__}: {e}"[:300]}
        except BaseException as e:
            signal.alarm(0)
            record = {"error": f"{type(e).__name__}: {e}"[:300]}
            if os.environ.get("DRV_TRACE"):
                traceback.print_exc()
        if os.environ.get("DRV_SLOW") and time.time() - began > 3:
            sys.stderr.write(f"SLOW {time.time() - began:.1f} {cls} {description[:1500]}\n")
        self.rec.write(json.dumps(record) + "\n")
        self.rec.flush()

    def case(self, cls, description, function, **kw):
        if self.mine():
            self.run(cls, description if isinstance(description, str) else repr(description),
                     function, **kw)


def main(table):
    """Command line of a driver: table maps names to functions of a Recorder."""
    try:
        # Fail here, and not in a case, if the machinery itself is broken.
        what = sys.argv[1]
        function = table[what]
        limit = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        traceback.print_exc()
        os._exit(3)
    try:
        function(Recorder())
    except Exception:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
