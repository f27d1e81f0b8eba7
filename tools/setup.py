#!/usr/bin/env python3
"""Checks that the tools the checks need are installed (nothing is built: every check builds from /repo itself)."""
import shutil, subprocess, sys
missing = [t for t in ('clang++-18', 'cvc5', 'z3-new', 'python3-vt', 'c++filt') if not shutil.which(t)]
subprocess.check_call(['python3-vt', '-c', 'import z3'])
if missing:
    sys.exit('missing tools: ' + ' '.join(missing))
print('ok')
