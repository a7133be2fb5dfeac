"""re-runs the failing input of a replay file against the native build of the real code"""
import json, importlib, random
from . import engine
from .engine import *


def main(pid, path):
    d = json.load(open(path))
    nf = d.get('failing_input')
    if not nf:
        print('no failing input recorded; verifier output:')
        print(json.dumps(d['verifier'], indent=1))
        return 1
    mod = importlib.import_module('props.' + pid)
    ob = [o for o in mod.obligations('thorough') + mod.obligations('quick') if o.name == d['obligation']][0]
    ob.tu.build()
    r = fuzz(ob, 1, 0, 30, [(nf['prime'], nf['values'], nf['choices'])])
    print(json.dumps(r, indent=1))
    return 1 if r.get('fail') else 0
