#!/usr/bin/env python3
"""Prebuilds the library objects of every mode (checks rebuild on their own when these are missing)."""
import sys, os, glob, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
bad = 0
for f in sorted(glob.glob(run.VERIF + '/harness/C*.cpp')):
    p = os.path.basename(f)[:-4]
    if re.fullmatch(r'C\d\d', p):
        try:
            run.build(p)
            print('built', p)
        except run.Infra as e:
            print(p, e)
            bad = 1
sys.exit(bad)
