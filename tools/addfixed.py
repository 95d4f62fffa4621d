"""python3 tools/addfixed.py PID COMMIT TEXT...   append a fixed entry to known_findings.json"""
import json
import sys
p = '/verif/known_findings.json'
d = json.load(open(p))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {" ".join(sys.argv[3:])}')
json.dump(d, open(p, 'w'), indent=1)
