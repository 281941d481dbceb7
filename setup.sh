#!/bin/bash
# nothing to compile: the checks import the Python code from /repo's working tree
set -e
test -x /opt/venv/bin/python
/opt/venv/bin/python - <<'P'
import numpy, scipy, matplotlib, pandas, yaml
P
