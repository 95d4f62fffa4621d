"""A simulated process with an interpreter of its own (core.Fresh)."""
import importlib
import json
import os
import sys

sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from sim import core  # noqa: E402

d = json.loads(sys.argv[1])
if not os.environ.get('SIM_DEBUG'):
    os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
module = importlib.import_module(f'props.{d["module"]}')
module.PROP.setup()
sim = core.Sim(d['root'], None, d['now'], d['dirseed'], d['randseed'])
sys.dont_write_bytecode = True
sim._child(d['fd'], lambda: getattr(module, d['func'])(*d['args']), d['idx'])
