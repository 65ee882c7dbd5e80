#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles what it needs from /repo's working tree. This only confirms that the tools are there."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
missing = [t for t in ('clang++', 'g++') if not shutil.which(t)]
if missing:
    sys.exit('missing: ' + ' '.join(missing))
with open(os.path.join(scratch(), 's.cpp'), 'w') as f:
    f.write('#include <boost/statechart/state_machine.hpp>\nint main() {}\n')
for san in (ASAN, TSAN):
    link([compile_obj(os.path.join(scratch(), 's.cpp'), os.path.join(scratch(), 's.o'), san)], os.path.join(scratch(), 's'), san)
    if sh([os.path.join(scratch(), 's')])[0] != 0:
        sys.exit('a sanitized program does not run here')
print('ready')
