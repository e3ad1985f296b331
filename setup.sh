#!/bin/bash
# nothing to build ahead of time: every check compiles / imports /repo's current working tree itself
cd "$(dirname "$0")" && mkdir -p evidence/replays && /opt/venv/bin/python -c "import numpy, stim, qiskit, z3, ldpc" && g++ --version >/dev/null
