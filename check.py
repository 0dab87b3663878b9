#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]  |  check.py --replay FILE"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build
from pbt import core
from pbt.registry import PROPS


def main():
    if sys.argv[1] == '--replay':
        body = json.load(open(sys.argv[2]))
        prop = PROPS[body['property']]()
        exes = {k: _build.build(k) for k in prop.kinds}
        n, msg = core.confirm(prop, exes, body['case'], body.get('history'))
        print('%d of 3 runs fail%s' % (n, ': ' + msg if n else ''))
        return 1 if n else 0
    prop = PROPS[sys.argv[1]]()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return core.run_check(prop, tier, seed)
    except _build.BuildError as e:
        print(e)
        return 2


sys.exit(main())
