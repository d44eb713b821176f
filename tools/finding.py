#!/usr/bin/env python3
"""tools/finding.py PROP COMMIT TEXT: adds a fixed entry to known_findings.json"""
import json, sys
p = '/verif/known_findings.json'; d = json.load(open(p))
pid, h, t = sys.argv[1:4]
d["findings"].append({"status": "fixed", "property": pid, "commit": h, "what": "fixed: property=%s %s %s" % (pid, h, t)})
open(p, 'w').write('{\n "comment": %s,\n "findings": [\n' % json.dumps(d["comment"]) + ",\n".join("  " + json.dumps(x) for x in d["findings"]) + "\n ]\n}\n")
