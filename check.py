#!/usr/bin/env python3-vt
import sys, os, argparse, json
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--replay')
a = ap.parse_args()
from vc import engine, runner
code = 2
try:
    if a.replay:
        from vc import replay
        code = replay.main(a.property, a.replay)
    else:
        code = runner.main(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1')))
finally:
    engine.cleanup()
sys.stdout.flush()
sys.stderr.flush()
os._exit(code)
