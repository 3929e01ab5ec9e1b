#!/usr/bin/python3
"""check.py <property>   decides one property on the working tree of /repo.

VERIF_TIER (quick or thorough) and VERIF_SEED are taken from the environment.
check.py --replay FILE runs the case of a reported violation again.
"""
import json, os, subprocess, sys, traceback

sys.dont_write_bytecode = True
import vlib
from vlib import Check, MachineryError

CHECKS = {}



def check(pid):
    def register(f):
        CHECKS[pid] = f
        return f
    return register


@check("C01")
def c01(c):
    c.model("DiffMachine", **({} if c.quick else {"MaxLen": 5}))
    c.validate("T_Diff", "DiffVerdict", c.record("diffs", "diff"))


@check("C02")
def c02(c):
    c.model("DiffMachine", **({} if c.quick else {"MaxLen": 5}))
    c.model("RampMachine", **({} if c.quick else {"MaxLen": 4}))
    c.validate("T_Diff", "KeepVerdict", c.record("diffs", "keep"))


@check("C03")
def c03(c):
    c.model("DiffMachine", **({} if c.quick else {"MaxLen": 5}))
    c.validate("T_Diff", "PatchVerdict", c.record("diffs", "patch"))


@check("C04")
def c04(c):
    c.model("SuffixAutomaton", **({} if c.quick else {"MaxText": 7}))
    c.model("RampMachine")
    c.validate("T_Lcs", "LcsVerdict", c.record("search", "lcs"))


@check("C05")
def c05(c):
    c.model("SuffixAutomaton", **({} if c.quick else {"MaxText": 7}))
    c.model("RampMachine")
    c.validate("T_Lcs", "SearchVerdict", c.record("search", "substring"))


@check("C06")
def c06(c):
    c.model("SuffixAutomaton", **({} if c.quick else {"MaxText": 7}))
    c.model("RampMachine")
    c.validate("T_Lcs", "AutomatonVerdict", c.record("search", "automaton"))


@check("C07")
def c07(c):
    c.model("MC_NWay", **({} if c.quick else {"MaxLen": 4}))
    c.model("RampMachine")
    c.validate("T_Lcs", "NWayVerdict", c.record("search", "nway"))


def merge_model(c):
    c.model("MergeMachine")
    if not c.quick:
        c.model("MergeMachine", Words="SmallWords")
        c.model("MergeMachine", Words="MoreWords", ParentLen=2)


@check("C08")
def c08(c):
    merge_model(c)
    c.validate("T_Merge", "TrivialVerdict", c.record("merges", "trivial"))


@check("C09")
def c09(c):
    merge_model(c)
    c.validate("T_Merge", "BoundsVerdict", c.record("merges", "merge"))


@check("C10")
def c10(c):
    merge_model(c)
    c.validate("T_Merge", "CleanVerdict", c.record("merges", "merge"))


@check("C11")
def c11(c):
    merge_model(c)
    c.validate("T_Merge", "SymmetryVerdict", c.record("merges", "merge"))


@check("C34")
def c34(c):
    merge_model(c)
    c.validate("T_Merge", "FormVerdict", c.record("merges", "merge"))


@check("C12")
def c12(c):
    c.model("RenamingMachine", **({} if c.quick else {"MaxLen": 4}))
    merge_model(c)
    c.validate("T_Renaming", "RunsVerdict", c.record("equality", "same"))


@check("C13")
def c13(c):
    c.model("TokensMachine")
    if not c.quick:
        c.model("TokensMachine", MaxText=2, MaxTexts=3)
    c.validate("T_Tokens", "SessionVerdict", c.record("tokens", "sessions"))


@check("C14")
def c14(c):
    c.model("TokensMachine")
    c.validate("T_Tokens", "CallsVerdict", c.record("tokens", "calls"))


@check("C15")
def c15(c):
    c.model("LineDiffMachine")
    c.model("LineDiffMachine", Char="{1, 10, 32}", MaxText=1, MaxItems=5)
    if not c.quick:
        c.model("LineDiffMachine", Char="{1, 10, 32}", MaxText=2, MaxItems=3)
    c.validate("T_LineDiff", "LineDiffVerdict", c.record("linediff", "streams"))


def versions_model(c, last=None):
    """Both model check the stores, and give the histories to replay."""
    c.model("VersionsMachine", **({} if c.quick else {"MaxVersions": 6}))
    c.model("VersionsMachine", Linear="TRUE", Content="{1}", MaxVersions=40 if c.quick else 80)
    n = last or (6 if c.quick else 7)
    c.model("VersionsMachine", Content="{1}", MaxVersions=n, Printing="TRUE")
    return c.histories[-1]


@check("C16")
def c16(c):
    h = versions_model(c)
    c.validate("T_Versions", "GetVerdict", c.record("store", "gets", replay=h))


@check("C17")
def c17(c):
    h = versions_model(c)
    c.validate("T_Versions", "InfoVerdict", c.record("store", "infos", replay=h))


@check("C18")
def c18(c):
    h = versions_model(c, 5)
    c.validate("T_Versions", "RejectVerdict", c.record("store", "rejected", replay=h))


@check("C19")
def c19(c):
    h = versions_model(c)
    c.validate("T_Versions", "LayoutVerdict", c.record("store", "layout", replay=h))


@check("C20")
def c20(c):
    h = versions_model(c)
    h = c.simulate("VersionsGoals", 6000 if c.quick else 60000, 31, 40 if c.quick else 300, h)
    c.validate("T_Versions", "TreeVerdict", c.record("trees", "same", replay=h))


@check("C21")
def c21(c):
    if not c.quick:
        c.model("CollectionMachine", MaxOps=6)
    c.model("CollectionMachine", MaxOps=4 if c.quick else 5, Printing="TRUE")
    c.validate("T_Collection", "CollectionVerdict",
               c.record("collection", "operations", replay=c.histories[-1]))


@check("C22")
def c22(c):
    c.model("SerialMachine", **({"MaxItems": 2} if c.quick else {"MaxItems": 3}))
    c.validate("T_Serial", "PatchSerialVerdict", c.record("serial", "patches"))


@check("C23")
def c23(c):
    c.model("SerialMachine", **({"MaxItems": 2} if c.quick else {"Base": 23}))
    c.validate("T_Serial", "IntVerdict", c.record("serial", "integers"))


@check("C24")
def c24(c):
    if not c.quick:
        c.model("ManifestMachine", MaxManifests=4)
    c.model("ManifestMachine", Printing="TRUE")
    c.validate("T_Manifest", "ManifestVerdict",
               c.record("manifests", "manifests", replay=c.histories[-1]))


@check("C25")
def c25(c):
    if c.quick:
        c.model("GitMachine")
    else:
        c.model("GitMachine", MaxItems=5)
        c.model("GitMachine", Char="{1, 10, 32}", MaxItems=3)
    c.validate("T_Tools", "GitVerdict", c.record("tools", "git"))


@check("C26")
def c26(c):
    c.model("MarkupMachine", **({} if c.quick else {"Char": "{1, 38, 2}"}))
    c.model("ConsoleMachine", **({"MaxText": 1} if c.quick else {}))
    c.model("ConsoleMachine", Char="{91, 93, 97}", MaxText=3, MaxItems=1)
    c.validate("T_Tools", "RenderVerdict", c.record("tools", "render"))


@check("C27")
def c27(c):
    c.model("ConsoleMachine")
    c.model("ConsoleMachine", Char="{91, 93, 97}", MaxText=3, MaxItems=1)
    c.model("Utf8Machine", **({"MaxChars": 2} if c.quick else {}))
    if not c.quick:
        c.model("ConsoleMachine", MaxText=4, MaxItems=1)
        c.model("ConsoleMachine", Char="{91, 92, 10}", MaxItems=3)
    c.validate("T_Tools", "ShownVerdict", c.record("tools", "console"))


@check("C28")
def c28(c):
    c.model("CostMachine", **({} if c.quick else {"MaxText": 8, "MaxOther": 5}))
    if not c.quick:
        c.model("CostMachine", Token="{1, 2}", MaxText=12)
    c.validate("T_Cost", "CostVerdict", c.record("linear", "cost"))


@check("C29")
def c29(c):
    c.model("InterleavingMachine", **({} if c.quick else {"MaxSteps": 7, "Calls": "{1, 2, 3}"}))
    c.model("InterleavingMachine", MaxSteps=5 if c.quick else 6, Printing="TRUE")
    c.validate("T_Interleaving", "CallsVerdict",
               c.record("purity", "calls", replay=c.histories[-1]))


@check("C30")
def c30(c):
    if not c.quick:
        c.model("FilesMachine", Paths="{1, 2}", MaxRuns=3)
    c.model("FilesMachine", Paths="{1, 2, 3}", MaxRuns=2, Printing="TRUE")
    c.validate("T_Files", "FilesVerdict", c.record("files", "runs", replay=c.histories[-1]))
    c.validate("T_Files", "TortureVerdict", c.record("files", "torture"))


@check("C31")
def c31(c):
    if not c.quick:
        c.model("ClientsMachine", MaxVersions=5, MaxLooks=1)
        c.model("ClientsMachine", Clients="{1, 2, 3}", MaxVersions=3)
    c.model("ClientsMachine", Printing="TRUE")
    c.validate("T_Versions", "ClientsVerdict", c.record("clients", "clients", replay=c.histories[-1]))


@check("C32")
def c32(c):
    if not c.quick:
        c.model("ManifestFailures", Names="{1, 2, 3}", MaxManifests=2)
    c.model("ManifestFailures", Printing="TRUE")
    c.validate("T_Manifest", "FailuresVerdict",
               c.record("manifests", "failures", replay=c.histories[-1]))


@check("C33")
def c33(c):
    c.model("CutsMachine", Printing="TRUE", **({} if c.quick else {"MaxVersions": 7}))
    c.validate("T_Cuts", "CutsVerdict", c.record("cuts", "cuts", replay=c.histories[-1]))


def replay(path):
    d = json.load(open(path))
    env = {**os.environ, "PYTHONPATH": f"{vlib.VERIF}/drv:{vlib.REPO}/src",
           "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
           "PYTHONPYCACHEPREFIX": "/nonexistent/pycache",
           "VERIF_SEED": str(d["seed"]), "VERIF_TIER": d["tier"], "DRV_TRACE": "1",
           "DRV_ONLY": str(d["case"]["index"]), "DRV_OUT": "/tmp/verif-replay"}
    if d.get("histories"):
        env["VERIF_HISTORIES"] = d["histories"]
    for suffix in (".rec", ".meta"):
        open("/tmp/verif-replay" + suffix, "w").close()
    subprocess.run([vlib.PYTHON, "-s", "-m", d["driver"], d["what"]], env=env)
    print("input: ", d["case"]["input"])
    print("broken:", d["broken"])
    print("then:  ", json.dumps(d["record"]))
    print("now:   ", open("/tmp/verif-replay.rec").read())


def setup():
    """The tools that the checks need are there."""
    for cmd in (["java", "-version"], [vlib.PYTHON, "-c", "import rich"]):
        subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    return 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["VERIF_TIER"] = tier
    c = Check(pid, tier, seed)
    try:
        CHECKS[pid](c)
        return c.finish()
    except MachineryError as e:
        print(f"ERROR: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
