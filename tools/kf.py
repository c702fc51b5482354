"""Maintain known_findings.json by hand: kf.py fixed C01 <commit> <what> | kf.py find <id> C01 <what>"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
if sys.argv[1] == "fixed":
    d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[2], sys.argv[3], sys.argv[4]))
else:
    d["findings"].append({"id": sys.argv[2], "property": sys.argv[3], "what": sys.argv[4]})
json.dump(d, open(p, "w"), indent=1)
