#!/usr/bin/env python3
"""Nothing to install: every check builds what it needs. Verifies the tools are there."""
import shutil, sys
missing = [t for t in ('gcc', 'clang', 'python3') if not shutil.which(t)]
if missing: sys.exit('missing: ' + ' '.join(missing))
print('ok')
