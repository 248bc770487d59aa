"""Run a failing history on the current tree:  replay.py FILE"""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import concrete  # noqa: E402
import cppast  # noqa: E402

f = sys.argv[1]
if not f.endswith('.script'):
    print(open(f).read())
    sys.exit(1)
d = tempfile.mkdtemp()
try:
    e = concrete.build(cppast.REPO, d, '# product: single_include' in open(f).read())
    rc = subprocess.run([e, '--script', f], env=concrete.ENV).returncode
finally:
    shutil.rmtree(d)
sys.exit(1 if rc else 0)
