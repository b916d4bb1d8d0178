#!/bin/bash
# nothing to build: checks that the tools the checks rely on are there
set -e
python3-vt -c "import z3, cvc5, pycparser, libcst, numpy"
/opt/venv/bin/python -c "import numpy, pandas, xarray, sklearn, scipy, astropy"
gcc --version >/dev/null
