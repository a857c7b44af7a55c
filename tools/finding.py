"""finding.py fixed P05 abc123 "what" — add a repaired defect; finding.py open P05 code "what" — an unrepaired one."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
kind, prop, ref, what = sys.argv[1:5]
if kind == "fixed":
    d["findings"].append({"property": prop, "status": "fixed", "commit": ref, "what": what, "line": "fixed: property=%s %s %s" % (prop, ref, what)})
else:
    d["findings"].append({"property": prop, "status": "open", "code": ref, "what": what})
with open(p, "w") as f:
    f.write('{"findings": [\n' + ",\n".join(json.dumps(x, separators=(",", ":")) for x in d["findings"]) + "\n]}\n")
