#!/usr/bin/env python3
"""Builds what the checks share; every check builds by itself whatever is missing or out of date."""
import glob, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import vlib
vlib.build_repo(True)
vlib.build_repo(False)
import extlib
extlib.stub_exe()
for f in sorted(glob.glob(os.path.join(vlib.VERIF, 'harness', '*.cpp'))):
    if f.endswith('stub.cpp'):
        continue
    vlib.harness(os.path.basename(f)[:-4])
for f in glob.glob(os.path.join(vlib.SPEC, '*.tla')):
    print('spec', os.path.basename(f))
