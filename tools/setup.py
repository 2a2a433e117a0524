#!/usr/bin/env python3
"""Sanity check of the tools the checks need (nothing is kept between runs: every check builds what it needs)."""
import shutil, sys
missing = [t for t in ('cmake', 'ninja', 'g++') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'tools present')
sys.exit(1 if missing else 0)
