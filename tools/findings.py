#!/usr/bin/env python3
"""Write the "fixed" part of known_findings.json from tools/fixed.txt."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
path = os.path.join(here, '..', 'known_findings.json')
with open(path) as f:
    data = json.load(f)
with open(os.path.join(here, 'fixed.txt')) as f:
    data['fixed'] = ['fixed: property=' + x.strip() for x in f if x.strip()]
with open(path, 'w') as f:
    json.dump(data, f, indent=1)
    f.write('\n')
