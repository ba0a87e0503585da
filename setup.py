#!/usr/bin/env python3
"""Builds the replay crates once and checks the tools are there (every check also builds what it needs itself)."""
import os, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import replay
assert shutil.which('verus'), 'verus is not installed'
rc, out = replay.build('runtime')
print('replay crate: %s' % ('ok' if rc == 0 else out[-2000:]))
