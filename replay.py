#!/opt/venv/bin/python
"""replay.py <file>: run a reported violation again on the real code."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib.concrete import Client
c = Client()
r = c.run(json.load(open(sys.argv[1]))['job'])
c.close()
print(json.dumps(r, indent=1))
sys.exit(1 if r['status'] in ('fail', 'hang') else 0)
