"""adds a fixed entry to known_findings.json:  fixed.py C03 <commit> "what failed" """
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(f))
p, c, w = sys.argv[1:4]
d.append(dict(status="fixed", property=p, commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w)))
json.dump(d, open(f, "w"), indent=1); open(f, "a").write("\n")
