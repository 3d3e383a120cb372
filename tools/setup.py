#!/usr/bin/env python3-vt
"""setup_cmd: checks that the tools the framework needs are there (nothing is installed or built ahead)."""
import shutil, sys, z3, cvc5
miss = [t for t in ('clang', 'clang++', '/usr/lib/llvm-18/bin/opt', '/usr/lib/llvm-18/bin/llvm-link', 'c++filt') if not shutil.which(t)]
print('z3 %s, cvc5 %s, missing: %s' % (z3.get_version_string(), cvc5.__version__ if hasattr(cvc5, '__version__') else '?', miss))
sys.exit(1 if miss else 0)
