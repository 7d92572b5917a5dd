#!/bin/bash
# Nothing to install: checks run on the sandbox's own interpreter. Verifies that it is there.
cd "$(dirname "$0")" || exit 1
chmod +x check
/opt/venv/bin/python -W ignore -c "import numpy, scipy, sklearn, pandas" || exit 1
mkdir -p evidence replays
echo "setup ok"
