#!/usr/bin/env python3
"""replay.py FILE: run the recorded counterexample on the real code in /repo."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx.runner import Conc

d = json.load(open(sys.argv[1]))
c = Conc(d["property"])
r = c.run(d["case"], d["assignment"])
c.close()
print(json.dumps(r, indent=1))
sys.exit(1 if r["failed"] else 0)
