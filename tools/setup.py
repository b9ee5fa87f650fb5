"""Setup: check that the tools the checks need are present (nothing to build: checks regenerate everything per run)."""
import shutil
import sys
bad = [t for t in ('clang', 'clang++', 'gcc', 'g++', 'cvc5') if not shutil.which(t)]
try:
    import z3
    print('z3', z3.get_version_string())
except ImportError:
    bad.append('z3 python bindings')
if bad:
    print('missing:', bad)
    sys.exit(1)
print('setup ok')
