#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing; never by a check).
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, claim=True, note="", level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], claim=claim, note=note, level=level, na=na))
exec(open(os.path.join(V, "dev", "props.py")).read())
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]: assert os.path.exists(os.path.join("/repo", x)), (p["id"], x)
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
COMMON = "Seeded random search: evidence, not proof. Trusts the simulation kernel (virtual clock, scheduler, simulated sockets) and the oracle; interleavings are sequentially consistent at atomic-operation/system-call granularity, so pure weak-memory reorderings are not explored."
m = dict(version=1, setup_cmd="./build.sh",
    hooks=dict(guard="none", enable="No hooks were added to /repo: the harness compiles the unmodified crates and puts every seam below them (libc entry points and compiler-inserted calls at atomic operations).", source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
        technique="deterministic simulation with fault injection: seeded schedule/fault search over the real code, invariant and history oracles", level=p["level"],
        level_note=(p["note"] + " " if p["note"] else "") + COMMON, evidence_file=f"evidence/{p['id']}.json") for p in P if p["claim"]],
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if not p["claim"]],
    notes="Every failure is written to evidence/replays/*.replay (plan + minimised schedule/fault deviations); build/target/x86_64-unknown-linux-gnu/release/ksim replay FILE -v reproduces it.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), s)
    print("valid,", len(P), "properties,", len(m["checks"]), "checks")
except ImportError: print("jsonschema not available")
