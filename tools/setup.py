#!/usr/bin/env python3
"""Nothing is built ahead of a check; this only confirms the tools the checks call are present."""
import os, sys
need = ['/usr/lib/llvm-18/bin/clang++', '/usr/lib/llvm-18/bin/opt', '/usr/lib/llvm-18/bin/llvm-cxxfilt']
missing = [n for n in need if not os.path.exists(n)]
print('missing: ' + ', '.join(missing) if missing else 'tools present')
sys.exit(1 if missing else 0)
