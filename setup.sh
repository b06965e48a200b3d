#!/bin/bash
# builds the MIR extractor (the checks build it again if it is missing)
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'mirv')
import extract
print(extract.driver())
P
