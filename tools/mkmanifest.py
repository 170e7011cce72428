"""Writes MANIFEST.json from the checks that exist and their module attributes."""
import ast, json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    path = os.path.join(here, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "check not built yet"})
        continue
    attrs = {"LEVEL": "exploration", "TECHNIQUE": "property-based testing",
             "NOTE": ""}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ("LEVEL", "TECHNIQUE", "NOTE", "ASSUMES", "RULE"):
                try:
                    attrs[name] = ast.literal_eval(node.value)
                except ValueError:
                    pass
    note = attrs["NOTE"] or "Generated-input search against an explicit oracle; no proof."
    if attrs.get("ASSUMES"):
        note += " Assumes: " + " ".join(attrs["ASSUMES"])
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "technique": attrs["TECHNIQUE"],
        "level": attrs["LEVEL"],
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo. Every check imports zigpy_cc from /repo's working tree.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
