"""Regenerates /verif/MANIFEST.json from the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "technique.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(V, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "check not built yet"}); continue
    lvl = re.search(r'LEVEL = "(\w+)"', open(f).read()).group(1)
    t = TECH[pid]
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s --tier quick" % pid, "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                   "technique": t["technique"], "level": lvl, "level_note": t["note"]})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.exit(sys.version_info < (3, 8))\"",
     "hooks": {"guard": "XLMON_HOOKS", "enable": "no hooks were needed: the monitors observe xlrd through its public API, sys.monitoring, sys.addaudithook and /proc; XLMON_HOOKS is reserved and unused", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "xlrd is pure Python: no build step; every check imports /repo's working tree directly (PYTHONDONTWRITEBYTECODE). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
