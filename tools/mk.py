import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
import props, contracts
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in sorted(props.P):
        f.write(json.dumps(props.P[p], ensure_ascii=False) + "\n")
checks, na = [], []
for p in sorted(props.P):
    if p not in contracts.PROPS:
        na.append({"property": p, "reason": "check under construction"})
        continue
    m = contracts.PROPS[p]
    cmd = "python3-vt -W ignore check.py --property %s --tier %s"
    checks.append({"property": p, "quick_cmd": cmd % (p, "quick"), "thorough_cmd": cmd % (p, "thorough"),
                   "technique": m.get("technique", "contract-based deductive verification (pyvc: VCs from the current source, z3/cvc5)"
                   " + bounded execution of the parts out of reach" if m["contracts"] else
                   "bounded execution of the real code against its specification (no contract within reach yet)"),
                   "level": m["level"], "level_note": m["explanation"]})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import pandas'", "checks": checks,
           "not_applicable": na, "notes": "see DESIGN.md; known-findings.txt lists repaired and recorded defects"},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
out = ["# Functions under contract", "", "Generated by tools/mk.py from contracts/; the obligations of each, with back end and time, are in evidence/<id>.json.", ""]
for p in sorted(props.P):
    cs = contracts.PROPS.get(p, {}).get("contracts", [])
    out.append("## %s %s" % (p, props.P[p].get("title", "")))
    out.append("")
    for mod, name, deps in cs:
        import importlib
        c = getattr(importlib.import_module("contracts." + mod), name)
        out.append("- `%s` (`%s.%s`): %s%s" % (c.target, mod, name, " ".join((c.__doc__ or "").split()),
                   "; uses " + ", ".join("%s.%s" % d for d in deps) if deps else ""))
    if not cs:
        out.append("no contract: bounded only")
    out.append("")
open(os.path.join(H, "CONTRACTS.md"), "w").write("\n".join(out))
import jsonschema
for l in open(os.path.join(H, "properties.jsonl")):
    jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(json.load(open(os.path.join(H, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks")
