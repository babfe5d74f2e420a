"""record a repaired defect: addfix.py PNN commit text..."""
import json, os, sys
p = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'); d = json.load(open(p))
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], ' '.join(sys.argv[3:])))
open(p, 'w').write(json.dumps(d, indent=1))
