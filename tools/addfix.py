"""tools/addfix.py PROP HASH text: record a repaired defect in known_findings.json"""
import json, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
k.append({"property": sys.argv[1], "status": "fixed", "match": "^$", "what": f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
open(p, "w").write(json.dumps(k, indent=1) + "\n")
