#!/usr/bin/env python3
"""addfixed.py PROP COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, subprocess, sys
p, c, t = sys.argv[1:4]
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', c], text=True).strip()[:12]
k = json.load(open('/verif/known_findings.json'))
k['fixed'].append('fixed: property=%s %s %s' % (p, h, t))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
open('/verif/known_findings.json', 'a').write('\n')
