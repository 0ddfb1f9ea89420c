"""contracts of a property, as JSON"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import worker, api

prop = sys.argv[1]
cs = worker.load_contracts(prop)
meta = api.META.get(prop, {})
print(json.dumps(dict(level=meta.get('level', 'proof'), note=meta.get('note', ''), assumptions=meta.get('assumptions', []), technique=meta.get('technique', ''),
                      level_note=meta.get('level_note', ''),
                      contracts=[dict(name=c.name, modes=c.modes, weight=c.weight, budget=c.budget, targets=c.targets) for c in cs.values()])))
