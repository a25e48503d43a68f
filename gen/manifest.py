"""writes MANIFEST.json from the checks that exist"""
import json, os, sys, importlib
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
NA = json.load(open(os.path.join(R, "gen", "na.json"))) if os.path.exists(os.path.join(R, "gen", "na.json")) else {}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "sa/checks/%s.py" % i.lower())) and i not in NA:
        m = importlib.import_module("sa.checks." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "technique": m.TECHNIQUE, "level": "other", "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3-vt -B -c \"from sa.repo import build_exporter; build_exporter()\"",
           "checks": checks, "not_applicable": na,
           "notes": "All checks are static analyses of /repo's current sources: a libTooling exporter (tool/exporter.cc) dumps the type-checked program, the Python engines in sa/ decide the rules. No hooks are needed."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
