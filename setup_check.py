#!/usr/bin/env python3
"""Setup: nothing to build ahead (each check compiles what it needs); make sure
the tools the monitors rely on are there."""
import os
import shutil
import sys
bad = [t for t in ('gcc', 'g++', 'go', 'git', 'bash') if not shutil.which(t)]
if not os.path.isdir('/repo/src/acetimetools'):
    bad.append('/repo')
print('missing: %s' % bad if bad else 'ready')
sys.exit(1 if bad else 0)
