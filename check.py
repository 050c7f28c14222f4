#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property, see DESIGN.md."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib

MODULES = {'C16': 'c16'}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    res = vlib.Result(prop, tier)
    try:
        importlib.import_module(MODULES.get(prop, 'cases')).run(res, tier)
    except vlib.ToolError as x:
        print('ERROR of the check: %s' % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    return res.finish()


if __name__ == '__main__':
    sys.exit(main())
