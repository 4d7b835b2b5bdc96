"""Writes MANIFEST.json from the checks that exist (a development aid; no check runs it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C16": "property-based testing against a reference model (Python's re as the regular expression engine)",
    "C24": "fuzzing with AddressSanitizer and UndefinedBehaviorSanitizer (structured generators)",
    "C26": "property-based testing, metamorphic relations (same run, different surroundings)",
    "C27": "property-based testing with injected I/O faults",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append({
            "property": p, "quick_cmd": "python3 run.py %s --quick" % p,
            "thorough_cmd": "python3 run.py %s --thorough" % p,
            "technique": TECH.get(p, "property-based testing: generated inputs against a reference model and direct "
                                     "relations, with shrinking"),
            "level": "exploration",
            "level_note": "random search over generated cases against an explicit oracle; no proof"})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
