"""Rewrite spec/inherited.json from /repo."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from sa.loader import World                                     # noqa: E402
from sa.inherit import current                                  # noqa: E402
w = World({'elementstx': '/repo', 'spec': V})
with open(V + '/spec/inherited.json', 'w') as f:
    json.dump(current(w), f, indent=1, sort_keys=True)
    f.write('\n')
