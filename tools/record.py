"""usage: record.py PROP HASH WHAT -- append a fixed entry to known_findings.json"""
import json, sys
p = __file__.rsplit("/", 2)[0] + "/known_findings.json"
d = json.load(open(p)); prop, h, w = sys.argv[1:4]
if not any(e.get("commit") == h and e.get("property") == prop for e in d):
    d.append(dict(status="fixed", property=prop, commit=h, what=w, line="fixed: property=%s %s %s" % (prop, h, w)))
    json.dump(d, open(p, "w"), indent=1)
