"""Print the scenario of one run:  python3 tools/scn.py C07 RUN [SEED] [TIER]"""
import importlib
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import instrs  # noqa: E402

pid, run = sys.argv[1], int(sys.argv[2])
seed = sys.argv[3] if len(sys.argv) > 3 else '1'
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
prop = importlib.import_module(f'props.{pid.lower()}').PROP
scn = prop.gen(random.Random(f'{seed}/{prop.id}/{run}'), tier, run)
if 'ins' in scn:
    print(instrs.text(scn['ins']))
    print({k: v for k, v in scn.items() if k != 'ins'})
else:
    print(json.dumps(scn, indent=1))
