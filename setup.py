"""Check that everything the checks need is in place (nothing is built)."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
code = ('import sys; sys.path.insert(0, "vendor"); import hypothesis, torch, '
        'numpy, scipy; print(hypothesis.__version__, torch.__version__)')
sys.exit(subprocess.call([sys.executable, '-B', '-c', code], cwd=HERE,
                         env=env))
