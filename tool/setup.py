"""Check that the tools the checks need are there; compile the Python files."""
import compileall
import os
import shutil
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
missing = [t for t in ('clang++', 'g++', 'why3', 'z3', 'z3-new', 'cvc5') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ' '.join(missing))
compileall.compile_dir(HERE, quiet=1)
