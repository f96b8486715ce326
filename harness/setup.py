#!/usr/bin/env python3
"""setup_cmd: nothing is built ahead (checks build what they need); parse every specification so that a broken one shows early."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
import common
bad = 0
for f in sorted(glob.glob(os.path.join(V, 'spec', '*.tla'))):
    p = subprocess.run(['java', '-cp', common.JARS, 'tla2sany.SANY', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.join(V, 'spec'))
    if p.returncode != 0:
        bad = 1
        print(p.stdout.decode()[-2000:])
assert os.path.exists(common.PYPY)
sys.exit(bad)
