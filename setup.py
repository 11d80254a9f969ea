"""Checks that the tools the framework needs are there (nothing to build)."""
import shutil
import sys

missing = [t for t in ('gcc', 'cbmc', 'goto-cc', 'goto-instrument', 'z3',
                       'cvc5') if not shutil.which(t)]
try:
    import z3  # noqa: F401
except ImportError:
    missing.append('z3 for Python')
if missing:
    sys.exit('missing: %s' % ', '.join(missing))
print('ok')
