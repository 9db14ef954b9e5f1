#!/usr/bin/env python3
"""replay.py FILE: run the recorded failing input against the real code (run with the repository's python)."""
import base64
import json
import os
import pickle
import sys
if not os.environ.get('_REPLAY') and os.path.exists('/opt/venv/bin/python'):
    os.environ['_REPLAY'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyvc import falsify, api      # noqa: E402
r = json.load(open(sys.argv[1]))
if not r.get('pickle'):
    print(json.dumps(r, indent=1))
    sys.exit(2)
falsify.load_contracts()
args = pickle.loads(base64.b64decode(r['pickle']))
m = falsify.run_one(api.REGISTRY[r['item']], args)
print('item', r['item'], 'args', repr(args)[:3000])
print('passes' if m is None or m == 'skip' else 'FAILS: ' + m[1:])
sys.exit(0 if m is None or m == 'skip' else 1)
