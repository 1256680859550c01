#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE]: decide one property by generated-input search (see DESIGN.md)."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def main():
    scratch = tempfile.mkdtemp(prefix='pbt-')
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TQDM_DISABLE='1',
               MPLCONFIGDIR=os.path.join(scratch, 'mpl'), PBT_SCRATCH=scratch, PYTHONPATH=HERE,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    try:
        os.makedirs(os.path.join(scratch, 'cwd'))
        args = [PY if os.path.exists(PY) else sys.executable, '-W', 'ignore', '-m', 'pbt.core'] + sys.argv[1:]
        return subprocess.call(args, env=env, cwd=os.path.join(scratch, 'cwd'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
