import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vc import props
P = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
checks = []
for p in P:
    if p["id"] in props.PROPS:
        q = props.PROPS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 vc.py " + p["id"], thorough_cmd="python3 vc.py " + p["id"] + " --thorough",
                           technique=q.get("technique", "TLA+ specification, TLC model checking of its laws, trace validation of the real code with TLC"),
                           level=q.get("level", "model_checking"),
                           level_note=q.get("note", "TLC decides every observation of the real code against the specification; the calls are the model's small scope exhaustively plus seeded wide-range inputs, over all listed type configurations.")))
na = [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in props.PROPS]
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \".\"); import vc.props'", checks=checks, not_applicable=na,
               notes="All checks are vc.py <id>; specification in spec/, drivers in driver/. See DESIGN.md."),
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
