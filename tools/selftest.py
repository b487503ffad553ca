#!/usr/bin/env python3
"""Setup: checks that the tools the framework needs are there (every check builds what it runs)."""
import os, subprocess, sys
for p in ('/usr/lib/llvm-18/bin/clang++', '/usr/lib/llvm-18/bin/opt', '/usr/lib/llvm-18/bin/llvm-link', '/usr/include/z3.h', '/usr/include/tao/pegtl.hpp', '/usr/bin/g++'):
    if not os.path.exists(p):
        print('missing', p)
        sys.exit(1)
print(subprocess.run(['/usr/lib/llvm-18/bin/clang++', '--version'], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0])
