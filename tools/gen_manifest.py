"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in mc/."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = {"C01", "C06", "C07"}
TECH = {
    "C01": "explicit-state search over edit/lookup histories of the real collections, states being whole object graphs, compared with a list model",
    "C07": "exhaustive enumeration of call/modification histories on the real code, each call compared with a fresh configuration",
    "C08": "controlled scheduler: every interleaving of two real threads up to a preemption bound, switching at each line that touches shared objects",
    "C28": "exhaustive enumeration of the iteration orders that sets can have (hashes, addresses and hash seeds permuted under the real code), each outcome compared",
    "C29": "bounded exhaustive enumeration of pairs of executions of the real code on related inputs, compared with each other",
    "C24": "exhaustive fault and re-entry injection at every invocation of every user callback of the real code",
}
DEFAULT = "bounded exhaustive enumeration of executions of the real code, each compared with an independent reference model"
NOTE = ("Complete within the bounds recorded per family in the evidence (families[].rule); the deciding step executes the real code of /repo on every case. "
        "Trusts the reference model in mc/ and, beyond the bounds, the small-scope hypothesis.")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for pr in props:
    pid = pr["id"]
    if os.path.exists(os.path.join(ROOT, "mc", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"python3 run.py {pid} --tier quick", thorough_cmd=f"python3 run.py {pid} --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique="model checking: " + TECH.get(pid, DEFAULT), level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks: every check drives the public API of the code in /repo's working tree. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
