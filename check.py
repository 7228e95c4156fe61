#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- decide one property on /repo's current working tree"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks
def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = checks.CHECKS[prop]
    return vlib.run_check(prop, c['title'], c['jobs'](), tier, seed, c.get('assumptions', ()), c.get('bounds', ''))
if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(1 if rc == 1 else 0)
