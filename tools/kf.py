"""development helper: tools/kf.py fixed PROPERTY COMMIT WHAT   -- adds an entry to known_findings.json"""
import json, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
st, prop, key, what = sys.argv[1:5]
if st == "fixed":
    d["findings"].append({"property": prop, "status": "fixed", "commit": key, "what": f"fixed: property={prop} {key} {what}"})
else:
    d["findings"].append({"property": prop, "status": "known", "key": key, "what": what})
json.dump(d, open(f, "w"), indent=1)
