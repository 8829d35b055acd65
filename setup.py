#!/usr/bin/env python3
"""Checks that the tools the checks need are present; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ('cargo', 'python3-vt') if not shutil.which(t)]
print('missing tools: %s' % missing if missing else 'ready')
sys.exit(1 if missing else 0)
