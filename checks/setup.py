"""setup: nothing to build; verify that the tools the analysis needs are here."""
import shutil, sys
for t in ('clang-18', 'opt-18'):
    if not shutil.which(t): print('missing', t); sys.exit(1)
print('ok')
