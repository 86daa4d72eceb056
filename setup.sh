#!/bin/bash
# nothing is built: confirms that the verifier and the interpreter of the project are present
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3, sys; print('z3', z3.get_version_string())"
cvc5 --version | head -1
/opt/venv/bin/python -c "import numpy, scipy; print('numpy', numpy.__version__)"
mkdir -p evidence replays
