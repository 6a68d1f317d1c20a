"""Writes MANIFEST.json from the checks that exist (a property without a check goes to not_applicable)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.environ.get("MTLN_REPO", "/repo"), "python"))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "no check built yet"})
        continue
    mod = importlib.import_module("checks." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": f"bash run.sh {pid} quick",
        "thorough_cmd": f"bash run.sh {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": getattr(mod, "TECHNIQUE", mod.__doc__.split(":", 1)[-1].strip().replace("\n", " ").split(";")[0])[:300],
        "level": "exploration",
        "level_note": mod.LEVEL_NOTE,
    })
out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
       "notes": "No hooks are needed in /repo: every monitor observes public probes, states and return values of the real code. "
                "Every check runs the working tree of /repo/python directly (pure Python, nothing to rebuild)."}
json.dump(out, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [m["property"] for m in missing])
