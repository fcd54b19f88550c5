"""Write MANIFEST.json from the plan and the list below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PLAN:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in PLAN],
         notes="No hooks: the specification is bound to the code through public attributes, return values and plug-in callables. "
               "./check.sh --replay FILE runs a reported case again.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
