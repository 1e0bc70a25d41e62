"""Writes properties.jsonl and MANIFEST.json from tistatic/passes/specs.py and not_applicable.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tistatic.passes.specs import PROPS
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))


def rec(p):
    assert len(p["title"]) <= 80, p["title"]
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(PROPS):
        f.write(json.dumps(rec(PROPS[k])) + "\n")
    for p in na:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=[
    dict(property=k, quick_cmd=f"./check {k} --tier quick", thorough_cmd=f"./check {k} --tier thorough",
         technique="static analysis: " + PROPS[k]["technique"], level=PROPS[k]["level"], level_note=PROPS[k]["note"])
    for k in sorted(PROPS)], not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in na],
    notes="All checks are static analyses of /repo's source (stdlib Python only); nothing of /repo is executed by them.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
