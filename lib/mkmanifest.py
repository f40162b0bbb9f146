"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    s = props.PROPS.get(i)
    if s:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": s.get("technique", "sanitized executions of generated inputs against an independent reference model"),
                       "level": s.get("level", "exploration"),
                       "level_note": s.get("level_note", "Held on the executions the evidence file counts, judged by an oracle written from the format or definition and by the sanitizers; says nothing of inputs not generated. " + " ".join("Assumes " + a + "." for a in s.get("assumptions", [])))})
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "MSAT_VERIF", "enable": "no hook is needed: the checks compile the repository's sources unchanged and observe them through their own interfaces", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "Every check compiles what it needs from /repo's working tree into /verif/build (ignored by git)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
