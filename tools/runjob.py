#!/usr/bin/env python3
"""runjob.py PROPERTY REGEX [quick|thorough]: run only the jobs of a property whose key matches (development aid)"""
import sys, re, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib, checks
c = checks.CHECKS[sys.argv[1]]; tier = sys.argv[3] if len(sys.argv) > 3 else 'thorough'
J = [j for j in c['jobs']() if re.search(sys.argv[2], j.key())]
print([(j.key(), j.tiers) for j in J]); os._exit(vlib.run_check(sys.argv[1], c['title'], J, tier, 1, c.get('assumptions', ()), c.get('bounds', '')))
