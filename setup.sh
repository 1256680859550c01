#!/bin/bash
# nothing to build: checks that the interpreter, Hypothesis and the code under test can be imported offline
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -c "from pbt import core; core.bootstrap(); print('ok')"
