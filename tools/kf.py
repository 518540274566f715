#!/usr/bin/env python3
# tools/kf.py fixed PROP COMMIT "what"  |  tools/kf.py known PROP HARNESS KIND MATCH "what"
import json, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
a = sys.argv[1:]
if a[0] == "fixed":
    k.append({"status": "fixed", "property": a[1], "what": "fixed: property=%s %s %s" % (a[1], a[2], a[3])})
else:
    k.append({"status": "known", "property": a[1], "harness": a[2], "kind": a[3], "match": a[4], "what": a[5]})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(e) for e in k) + "\n]\n")
